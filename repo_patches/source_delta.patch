From ee0f5ebe2b6a5daf6d28f0d02747b93f6afa0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 01/26] fix: Hex8::FineLayer face sets include the nodes of an
 outermost refinement layer

---
 include/GooseFEM/MeshHex8.h | 96 ++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/include/GooseFEM/MeshHex8.h b/include/GooseFEM/MeshHex8.h
index c43367e..a590232 100644
--- a/include/GooseFEM/MeshHex8.h
+++ b/include/GooseFEM/MeshHex8.h
@@ -1581,20 +1581,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1606,9 +1606,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (the bottom-most layer is part of the bottom edge)
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix;
                 ++j;
             }
@@ -1622,7 +1622,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1630,8 +1630,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            // -- top node layer (the top-most layer is part of the top edge)
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix;
                 ++j;
             }
@@ -1649,20 +1649,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1674,9 +1674,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (the bottom-most layer is part of the bottom edge)
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1691,7 +1691,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1700,8 +1700,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            // -- top node layer (the top-most layer is part of the top edge)
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1719,20 +1719,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1744,9 +1744,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (the bottom-most layer is part of the bottom edge)
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1760,7 +1760,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1768,8 +1768,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            // -- top node layer (the top-most layer is part of the top edge)
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1787,20 +1787,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1812,9 +1812,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (the bottom-most layer is part of the bottom edge)
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
@@ -1829,7 +1829,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1838,8 +1838,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            // -- top node layer (the top-most layer is part of the top edge)
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
-- 
2.43.0


From 014a8a37bbd98b0ee11b36abb17e71a8017a0ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 02/26] fix: Quad4::FineLayer element windows around an element
 wrap periodically and stay within the box

---
 include/GooseFEM/MeshQuad4.h | 145 ++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 80 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..4f5779b 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,61 +411,26 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
-        size_t nel = m_layer_nelx(iy);
+        size_t iy = xt::sum(m_startElem <= e)() - 1;
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
 
         auto H = xt::cumsum(m_nhy);
 
-        if (2 * size >= H(H.size() - 1)) {
-            return xt::arange<size_t>(this->nelem());
-        }
-
+        // rows of the box, limited to the mesh
         size_t hy = H(iy);
-        size_t l = xt::argmax(H > (hy - size - 1))();
-        size_t u = xt::argmax(H >= (hy + size))();
+        size_t lower = hy > size ? hy - size - 1 : 0;
+        size_t upper = std::min(hy + size, H(H.size() - 1));
+        size_t l = xt::argmax(H > lower)();
+        size_t u = xt::argmax(H >= upper)();
         size_t lh = 0;
         if (l > 0) {
             lh = H(l - 1);
         }
         size_t uh = H(u);
+        size_t dx = std::max(m_nhx(l), m_nhx(u));
 
-        size_t step = xt::amax(m_nhx)();
-        size_t relx = (e - m_startElem(iy)) % step;
-        size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
-        size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(u);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= size) {
-            xl = mid - size;
-        }
-        if (mid + size < nel) {
-            xu = mid + size + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < size) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < size) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
-        }
-
-        auto ret = this->elementgrid_ravel({lh, uh}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+        return this->elementgrid_window_ravel(lh, uh, e - m_startElem(iy), size, size, dx);
     }
 
     /**
@@ -484,51 +449,19 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
-        size_t nel = m_layer_nelx(iy);
+        size_t iy = xt::sum(m_startElem <= e)() - 1;
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
 
-        size_t step = xt::amax(m_nhx)();
-        size_t relx = (e - m_startElem(iy)) % step;
-        size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
-        size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(iy);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= left) {
-            xl = mid - left;
-        }
-        if (mid + right < nel) {
-            xu = mid + right + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < left) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < right) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
-        }
-
         auto H = xt::cumsum(m_nhy);
         size_t yl = 0;
         if (iy > 0) {
             yl = H(iy - 1);
         }
-        auto ret = this->elementgrid_ravel({yl, H(iy)}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+
+        return this->elementgrid_window_ravel(
+            yl, H(iy), e - m_startElem(iy), left, right, m_nhx(iy)
+        );
     }
 
     /**
@@ -568,6 +501,58 @@ private:
     friend class RegularBase2d<FineLayer>;
     friend class GooseFEM::Mesh::Quad4::Map::FineLayer2Regular;
 
+    /**
+     * Select elements in a window of columns (measured in fine elements) that is periodic.
+     * The window is rounded outwards to blocks of `dx` columns.
+     *
+     * @param yl First row.
+     * @param yu Last row + 1.
+     * @param mid The column around which the window is taken.
+     * @param left Number of columns left of `mid`.
+     * @param right Number of columns right of `mid`.
+     * @param dx Number of columns per block (`nelx()` is a multiple of it).
+     * @return List of elements.
+     */
+    array_type::tensor<size_t, 1> elementgrid_window_ravel(
+        size_t yl,
+        size_t yu,
+        size_t mid,
+        size_t left,
+        size_t right,
+        size_t dx
+    ) const
+    {
+        size_t nel = this->nelx();
+
+        if (left >= nel || right >= nel || left + right + 1 >= nel) {
+            return this->elementgrid_ravel({yl, yu}, {0, nel});
+        }
+
+        size_t xl = mid + nel - left;
+        size_t xu = mid + nel + right;
+        xl = (xl / dx) * dx;
+        xu = (xu / dx + 1) * dx;
+
+        if (xu - xl >= nel) {
+            return this->elementgrid_ravel({yl, yu}, {0, nel});
+        }
+
+        xl = xl % nel;
+        xu = xu % nel;
+
+        if (xu == 0) {
+            xu = nel;
+        }
+
+        if (xl < xu) {
+            return this->elementgrid_ravel({yl, yu}, {xl, xu});
+        }
+
+        array_type::tensor<size_t, 1> a = this->elementgrid_ravel({yl, yu}, {xl, nel});
+        array_type::tensor<size_t, 1> b = this->elementgrid_ravel({yl, yu}, {0, xu});
+        return xt::concatenate(xt::xtuple(a, b));
+    }
+
     size_t nelx_impl() const
     {
         return xt::amax(m_layer_nelx)();
-- 
2.43.0


From af2382698f292c69195068c026224d5759df19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 03/26] fix: Quad4::FineLayer reconstruction: no out-of-bounds
 reads, rounded height, reject other shapes

---
 include/GooseFEM/MeshQuad4.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 4f5779b..94bb790 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1071,6 +1071,7 @@ private:
 
         if (conn.shape(0) == 1) {
             this->init(1, 1, coor(conn(0, 1), 0) - coor(conn(0, 0), 0));
+            GOOSEFEM_CHECK(xt::has_shape(coor, {m_nnode, m_ndim}));
             GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
             GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
             return;
@@ -1082,11 +1083,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
@@ -1109,8 +1110,11 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
+        GOOSEFEM_CHECK(xt::has_shape(conn, {m_nelem, m_nne}));
+        GOOSEFEM_CHECK(xt::has_shape(coor, {m_nnode, m_ndim}));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
         GOOSEFEM_CHECK(
-- 
2.43.0


From 093bece510f601a144b3c75f2e49a157b4713bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 04/26] fix: solvers re-factorize when the matrix differs from
 the one they factorized

---
 include/GooseFEM/Matrix.h                  | 29 +++++++++++++++++-----
 include/GooseFEM/MatrixPartitioned.h       |  8 +++---
 include/GooseFEM/MatrixPartitionedTyings.h | 27 ++++++++++----------
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..d4bdc4f 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -13,6 +13,8 @@
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
 
+#include <atomic>
+
 namespace GooseFEM {
 
 // forward declaration
@@ -207,6 +209,23 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_version = 0; ///< Identifier of the data, see version().
+
+    /**
+     * Identifier of the current data, unique among all matrices:
+     * allows each solver to recognise if it has factorized precisely this data.
+     *
+     * @return Identifier (>= 1).
+     */
+    size_t version()
+    {
+        static std::atomic<size_t> counter{0};
+        if (m_changed) {
+            m_version = ++counter;
+            m_changed = false;
+        }
+        return m_version;
+    }
 
 public:
     /**
@@ -655,8 +674,6 @@ private:
     friend MatrixBase<Matrix>;
 
 private:
-    bool m_changed = true; ///< Signal changes to data.
-
     Eigen::SparseMatrix<double> m_A; ///< The matrix.
 
     std::vector<Eigen::Triplet<double>> m_T; ///< Matrix entries.
@@ -892,19 +909,19 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_version = 0; ///< Version of the matrix that was factorized (0: none).
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        size_t version = A.version();
+        if (version == m_version) {
             return;
         }
         m_solver.compute(A.m_A);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = version;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..8655a03 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -625,19 +625,19 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_version = 0; ///< version of the matrix that was factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        size_t version = A.version();
+        if (version == m_version) {
             return;
         }
         m_solver.compute(A.m_Auu);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = version;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..36b543a 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -647,30 +647,31 @@ public:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_version = 0; ///< version of the matrix that was factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
-            return;
-        }
-
-        A.m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
+        if (A.m_changed) {
+            A.m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
 
-        A.m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
+            A.m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
 
-        // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
-        //     + A.m_Cpd * A.m_Add * A.m_Cdu;
+            // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
+            //     + A.m_Cpd * A.m_Add * A.m_Cdu;
 
-        // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
-        //     + A.m_Cpd * A.m_Add * A.m_Cdp;
+            // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
+            //     + A.m_Cpd * A.m_Add * A.m_Cdp;
+        }
 
+        size_t version = A.version();
+        if (version == m_version) {
+            return;
+        }
         m_solver.compute(A.m_ACuu);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = version;
     }
 };
 
-- 
2.43.0


From 8d5e028d9e5ebaf8984ce0d58420be71cc41134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 05/26] fix: MatrixPartitionedTyings reads the dependent DOFs
 of a dofval

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 36b543a..cf090e5 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
-- 
2.43.0


From 1b3d4aa418750d5d1c615d410b93ff1d21dab2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 06/26] fix: MatrixPartitionedTyingsSolver condenses the load
 on dependent DOFs for dofval input

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index cf090e5..a38fa06 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
-- 
2.43.0


From 7df2f875720a27a2ef57deb18c5f221ed2a80df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 07/26] fix: MatrixPartitionedTyingsSolver::solve_u condenses
 the load on dependent DOFs

---
 include/GooseFEM/MatrixPartitionedTyings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index a38fa06..e7ccfe4 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -632,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -642,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From ec2bce53bb4d7034ce264115eecabdbdd68202dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 08/26] fix: MatrixDiagonalPartitioned does not hide the
 partition of its base class

---
 include/GooseFEM/MatrixDiagonalPartitioned.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonalPartitioned.h b/include/GooseFEM/MatrixDiagonalPartitioned.h
index 19e7b75..dd8017e 100644
--- a/include/GooseFEM/MatrixDiagonalPartitioned.h
+++ b/include/GooseFEM/MatrixDiagonalPartitioned.h
@@ -428,12 +428,6 @@ private:
 
     // Bookkeeping
     array_type::tensor<size_t, 2> m_part; // DOF-numbers per node, renumbered  [nnode, ndim]
-    array_type::tensor<size_t, 1> m_iiu; // DOF-numbers that are unknown      [nnu]
-    array_type::tensor<size_t, 1> m_iip; // DOF-numbers that are prescribed   [nnp]
-
-    // Dimensions
-    size_t m_nnu; // number of unknown DOFs
-    size_t m_nnp; // number of prescribed DOFs
 
     // Compute inverse (automatically evaluated by "solve")
     void factorize()
-- 
2.43.0


From 21408acb1a20643a2f48a3656a1a9bc19a77ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 09/26] fix: MatrixDiagonalPartitioned::Solve does not return
 uninitialised entries for prescribed DOFs

---
 include/GooseFEM/MatrixDiagonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonal.h b/include/GooseFEM/MatrixDiagonal.h
index 6c72b15..a0e2a0c 100644
--- a/include/GooseFEM/MatrixDiagonal.h
+++ b/include/GooseFEM/MatrixDiagonal.h
@@ -52,7 +52,7 @@ public:
      */
     array_type::tensor<double, 2> Solve(const array_type::tensor<double, 2>& b)
     {
-        array_type::tensor<double, 2> x = xt::empty_like(b);
+        array_type::tensor<double, 2> x = xt::zeros_like(b);
         derived_cast().solve_nodevec_impl(b, x);
         return x;
     }
@@ -69,7 +69,7 @@ public:
      */
     array_type::tensor<double, 1> Solve(const array_type::tensor<double, 1>& b)
     {
-        array_type::tensor<double, 1> x = xt::empty_like(b);
+        array_type::tensor<double, 1> x = xt::zeros_like(b);
         derived_cast().solve_dofval_impl(b, x);
         return x;
     }
-- 
2.43.0


From 4fd13f0fc05f14fe123b044be3c34b70af86d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 10/26] fix: shape function gradients of Hex8 elements that are
 not aligned with the axes

---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..c077b6a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1217,7 +1217,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From ea39b9d9dfed2536b2689eebd2bcc5de6dddbce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 11/26] fix: Element::Quad4::Quadrature interpolates vectors of
 any dimension without reading out of bounds

---
 include/GooseFEM/ElementQuad4.h | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..99a30a3 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -321,30 +321,6 @@ private:
     friend QuadratureBase<Quadrature>;
     friend QuadratureBaseCartesian<Quadrature>;
 
-    template <class T, class R>
-    void interpQuad_vector_impl(const T& elemvec, R& qvector) const
-    {
-        GOOSEFEM_ASSERT(xt::has_shape(elemvec, this->shape_elemvec()));
-        GOOSEFEM_ASSERT(xt::has_shape(qvector, this->shape_qvector()));
-
-        qvector.fill(0.0);
-
-#pragma omp parallel for
-        for (size_t e = 0; e < m_nelem; ++e) {
-
-            auto u = xt::adapt(&elemvec(e, 0, 0), xt::xshape<s_nne, s_ndim>());
-
-            for (size_t q = 0; q < m_nip; ++q) {
-
-                auto N = xt::adapt(&m_N(q, 0), xt::xshape<s_nne>());
-                auto ui = xt::adapt(&qvector(e, q, 0), xt::xshape<s_ndim>());
-
-                ui(0) = N(0) * u(0, 0) + N(1) * u(1, 0) + N(2) * u(2, 0) + N(3) * u(3, 0);
-                ui(1) = N(0) * u(0, 1) + N(1) * u(1, 1) + N(2) * u(2, 1) + N(3) * u(3, 1);
-            }
-        }
-    }
-
     template <class T, class R>
     void gradN_vector_impl(const T& elemvec, R& qtensor) const
     {
-- 
2.43.0


From 09fcc8401257f0ba80891f9b3f247956a26c911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 12/26] fix: weight of the Quad4 mid-point rule is the area of
 the reference element

---
 include/GooseFEM/ElementQuad4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index 99a30a3..f303888 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -214,7 +214,7 @@ inline array_type::tensor<double, 1> w()
 
     array_type::tensor<double, 1> w = xt::empty<double>({nip});
 
-    w(0) = 1.0;
+    w(0) = 4.0;
 
     return w;
 }
-- 
2.43.0


From fceb1f5bea6fe7f787cd7ba9fb517d5304af961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 13/26] fix: Element::isSequential detects holes

---
 include/GooseFEM/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index c077b6a..e2ef28c 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,8 +103,8 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
-        if (exists[i] == 0) {
+    for (auto& i : exists) {
+        if (i == 0) {
             return false;
         }
     }
-- 
2.43.0


From 5cbaefaf1d03a85ca4a0a817966db0eed2635ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 14/26] fix: Iterate::StopList does not report convergence for
 a residual that is NaN

---
 include/GooseFEM/Iterate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..866c3dc 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -79,7 +79,10 @@ public:
      */
     bool descending() const
     {
-        return std::is_sorted(m_res.cbegin(), m_res.cend(), std::greater<double>());
+        // (negated comparison: a residual that is NaN is not in order)
+        return std::adjacent_find(m_res.cbegin(), m_res.cend(), [](const auto& a, const auto& b) {
+                   return !(a >= b);
+               }) == m_res.cend();
     }
 
     /**
@@ -90,7 +93,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From a33b47d7d4edf9aa2325f199bcde17b4b2843bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 15/26] fix: Element::isDiagonal is inline, and compiles with
 OpenMP (no return out of a parallel loop)

---
 include/GooseFEM/Element.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index e2ef28c..7a8c460 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -119,7 +119,7 @@ inline bool isSequential(const E& dofs)
  * @param elemmat Element-vectors ("elemmat")
  * @return `true` if all element matrices are diagonal.
  */
-bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
+inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 {
     GOOSEFEM_ASSERT(elemmat.shape(1) == elemmat.shape(2));
 
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From d864fbee9ff6890fc0947affa01895eaa6556112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 16/26] fix: do not parallelise loops in which several
 iterations write the same degree of freedom (data race)

---
 include/GooseFEM/Matrix.h                  | 1 -
 include/GooseFEM/MatrixPartitioned.h       | 2 --
 include/GooseFEM/MatrixPartitionedTyings.h | 3 ---
 include/GooseFEM/Vector.h                  | 3 ---
 include/GooseFEM/VectorPartitioned.h       | 4 ----
 include/GooseFEM/VectorPartitionedTyings.h | 2 --
 6 files changed, 15 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index d4bdc4f..def1e6f 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -845,7 +845,6 @@ private:
 
         Eigen::VectorXd dofval = Eigen::VectorXd::Zero(m_ndof, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 dofval(m_dofs(m, i)) = nodevec(m, i);
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 8655a03..71607d3 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -470,7 +470,6 @@ private:
 
         Eigen::VectorXd dofval_u = Eigen::VectorXd::Zero(m_nnu, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) < m_nnu) {
@@ -502,7 +501,6 @@ private:
 
         Eigen::VectorXd dofval_p = Eigen::VectorXd::Zero(m_nnp, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) >= m_nnu) {
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index e7ccfe4..3025106 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -431,7 +431,6 @@ private:
 
         Eigen::VectorXd dofval_u = Eigen::VectorXd::Zero(m_nnu, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) < m_nnu) {
@@ -463,7 +462,6 @@ private:
 
         Eigen::VectorXd dofval_p = Eigen::VectorXd::Zero(m_nnp, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nnu && m_dofs(m, i) < m_nni) {
@@ -495,7 +493,6 @@ private:
 
         Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nni) {
diff --git a/include/GooseFEM/Vector.h b/include/GooseFEM/Vector.h
index 7045da9..ec757d6 100644
--- a/include/GooseFEM/Vector.h
+++ b/include/GooseFEM/Vector.h
@@ -576,7 +576,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 ret(m_dofs(m, i)) = arg(m, i);
@@ -598,7 +597,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
@@ -642,7 +640,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
diff --git a/include/GooseFEM/VectorPartitioned.h b/include/GooseFEM/VectorPartitioned.h
index b9dec50..bb273dc 100644
--- a/include/GooseFEM/VectorPartitioned.h
+++ b/include/GooseFEM/VectorPartitioned.h
@@ -485,7 +485,6 @@ public:
 
         dofval_u.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) < m_nnu) {
@@ -526,7 +525,6 @@ public:
 
         dofval_u.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
@@ -606,7 +604,6 @@ public:
 
         dofval_p.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) >= m_nnu) {
@@ -647,7 +644,6 @@ public:
 
         dofval_p.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 2f6a73a..a4e4b92 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -61,7 +61,6 @@ private:
 
         Eigen::VectorXd dofval_d(m_nnd, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nni) {
@@ -228,7 +227,6 @@ public:
 
         dofval_i.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) < m_nni) {
-- 
2.43.0


From bef838088a2447f930b76bb33e31023011d09109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 17/26] fix: Vector checks the rank of conn and dofs before it
 copies them (not after: out-of-bounds write in assertion builds)

---
 include/GooseFEM/Vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/Vector.h b/include/GooseFEM/Vector.h
index ec757d6..a4bd55e 100644
--- a/include/GooseFEM/Vector.h
+++ b/include/GooseFEM/Vector.h
@@ -31,11 +31,13 @@ public:
      * @param dofs DOFs per node [#nnode, #ndim].
      */
     template <class S, class T>
-    Vector(const S& conn, const T& dofs) : m_conn(conn), m_dofs(dofs)
+    Vector(const S& conn, const T& dofs)
     {
         GOOSEFEM_ASSERT(conn.dimension() == 2);
         GOOSEFEM_ASSERT(dofs.dimension() == 2);
 
+        m_conn = conn;
+        m_dofs = dofs;
         m_nelem = m_conn.shape(0);
         m_nne = m_conn.shape(1);
         m_nnode = m_dofs.shape(0);
-- 
2.43.0


From 9a23c40abedceb0eda91fb87d49e19f9238f93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 18/26] fix: Quadrature constructors check the shape of the
 integration points before they read them

---
 include/GooseFEM/ElementHex8.h        | 10 ++++++----
 include/GooseFEM/ElementQuad4.h       | 10 ++++++----
 include/GooseFEM/ElementQuad4Planar.h | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/GooseFEM/ElementHex8.h b/include/GooseFEM/ElementHex8.h
index a50662c..3a941ed 100644
--- a/include/GooseFEM/ElementHex8.h
+++ b/include/GooseFEM/ElementHex8.h
@@ -259,6 +259,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -303,10 +309,6 @@ public:
             m_dNxi(q, 7, 2) = +0.125 * (1.0 - xi(q, 0)) * (1.0 + xi(q, 1));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index f303888..fe890b6 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -281,6 +281,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -304,10 +310,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
diff --git a/include/GooseFEM/ElementQuad4Planar.h b/include/GooseFEM/ElementQuad4Planar.h
index cf278ee..d6e3b43 100644
--- a/include/GooseFEM/ElementQuad4Planar.h
+++ b/include/GooseFEM/ElementQuad4Planar.h
@@ -85,6 +85,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
         m_thick = thick;
@@ -109,10 +115,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
-- 
2.43.0


From dff5a8052c0ed1cfed64035cddb2ac67ad4364ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 19/26] fix: Mesh::nodaltyings does not read beyond the list of
 the second component when its assertion fails

---
 include/GooseFEM/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..8818344 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2852,7 +2852,7 @@ inline std::vector<std::vector<size_t>> nodaltyings(const D& dofs)
         for (size_t i = 1; i < ndim; ++i) {
             auto t = nodemap[dofs(m, i)];
             std::sort(t.begin(), t.end());
-            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin()));
+            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin(), t.end()));
         }
 #endif
     }
-- 
2.43.0


From 55dd83f6dd4781fbb9baaa68537e45e0866c396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 20/26] fix: Python MatrixPartitionedTyings: nni, nnd, iii, iid
 returned those of the unknown and prescribed DOFs

---
 python/Matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/Matrix.hpp b/python/Matrix.hpp
index 507c897..7f388e2 100644
--- a/python/Matrix.hpp
+++ b/python/Matrix.hpp
@@ -140,10 +140,10 @@ void register_Matrix_MatrixPartitionedBase(P& cls)
 template <class C, class P>
 void register_Matrix_MatrixPartitionedTyingsBase(P& cls)
 {
-    cls.def_property_readonly("nni", &C::nnu, "Number of independent DOFs");
-    cls.def_property_readonly("nnd", &C::nnp, "Number of dependent DOFs");
-    cls.def_property_readonly("iii", &C::iiu, "Independent DOFs");
-    cls.def_property_readonly("iid", &C::iip, "Dependent DOFs");
+    cls.def_property_readonly("nni", &C::nni, "Number of independent DOFs");
+    cls.def_property_readonly("nnd", &C::nnd, "Number of dependent DOFs");
+    cls.def_property_readonly("iii", &C::iii, "Independent DOFs");
+    cls.def_property_readonly("iid", &C::iid, "Dependent DOFs");
 }
 
 template <class C, class M, class P>
-- 
2.43.0


From ac1c0e8b6bb71ad45fa15488e79eb72e6da17d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 21/26] fix: Python Mesh.Hex8.FineLayer: register the
 properties of every regular mesh (only elementsMiddleLayer was available)

---
 python/MeshHex8.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/MeshHex8.hpp b/python/MeshHex8.hpp
index 45faeb1..721f3b8 100644
--- a/python/MeshHex8.hpp
+++ b/python/MeshHex8.hpp
@@ -52,6 +52,9 @@ void init_MeshHex8(py::module& mod)
             py::arg("nfine") = 1
         );
 
+        register_Mesh_RegularBase<GooseFEM::Mesh::Hex8::FineLayer>(cls);
+        register_Mesh_RegularBase3d<GooseFEM::Mesh::Hex8::FineLayer>(cls);
+
         cls.def("elementsMiddleLayer", &GooseFEM::Mesh::Hex8::FineLayer::elementsMiddleLayer);
 
         cls.def("__repr__", [](const GooseFEM::Mesh::Hex8::FineLayer&) {
-- 
2.43.0


From dc68fc823291c0f7f2f5ee3ffa8590c66f0e3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 22/26] fix: Mesh::Quad4::FineLayer(coor, conn) refuses
 upside-down and degenerate arrays before converting their height (undefined
 behaviour)

---
 include/GooseFEM/MeshQuad4.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 94bb790..a0553af 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1103,6 +1103,7 @@ private:
         auto hx = xt::amin(dx)();
         auto hy = xt::amin(dy)();
 
+        GOOSEFEM_CHECK(hx > 0.0);
         GOOSEFEM_CHECK(xt::allclose(hx, hy));
         GOOSEFEM_CHECK(xt::allclose(dx, hx));
         GOOSEFEM_CHECK(xt::allclose(dy, hy));
@@ -1110,8 +1111,9 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely =
-            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
+        double height = std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        GOOSEFEM_CHECK(height >= 1.0);
+        size_t nely = static_cast<size_t>(height);
         this->init(nelx, nely, hx);
         GOOSEFEM_CHECK(xt::has_shape(conn, {m_nelem, m_nne}));
         GOOSEFEM_CHECK(xt::has_shape(coor, {m_nnode, m_ndim}));
-- 
2.43.0


From dbe474ab02e6c13a14787d5729bdf8df58b834ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:38 +0000
Subject: [PATCH 23/26] fix: matrices: strided vectors (such as slices of NumPy
 arrays) were read and written as if contiguous

---
 include/GooseFEM/Matrix.h                  | 31 +++++++++++++++++++---
 include/GooseFEM/MatrixPartitioned.h       | 13 ++++-----
 include/GooseFEM/MatrixPartitionedTyings.h | 11 ++++----
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index def1e6f..793464f 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -13,10 +13,35 @@
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
 
+#include <algorithm>
 #include <atomic>
 
 namespace GooseFEM {
 
+namespace detail {
+
+/**
+ * Copy to an Eigen vector (the items of `arg` need not be contiguous in memory).
+ */
+template <class T>
+inline Eigen::VectorXd to_eigen(const T& arg)
+{
+    Eigen::VectorXd ret(arg.size());
+    std::copy(arg.begin(), arg.end(), ret.data());
+    return ret;
+}
+
+/**
+ * Copy from an Eigen vector (the items of `ret` need not be contiguous in memory).
+ */
+template <class T>
+inline void from_eigen(const Eigen::VectorXd& arg, T& ret)
+{
+    std::copy(arg.data(), arg.data() + arg.size(), ret.begin());
+}
+
+} // namespace detail
+
 // forward declaration
 template <class>
 class MatrixSolver;
@@ -827,8 +852,7 @@ private:
     template <class T>
     void dot_dofval_impl(const T& x, T& b) const
     {
-        Eigen::Map<Eigen::VectorXd>(b.data(), b.size()).noalias() =
-            m_A * Eigen::Map<const Eigen::VectorXd>(x.data(), x.size());
+        detail::from_eigen(m_A * detail::to_eigen(x), b);
     }
 
 private:
@@ -902,8 +926,7 @@ private:
     void solve_dofval_impl(Matrix& A, const T& b, T& x)
     {
         this->factorize(A);
-        Eigen::Map<Eigen::VectorXd>(x.data(), x.size()).noalias() =
-            m_solver.solve(Eigen::Map<const Eigen::VectorXd>(b.data(), A.m_ndof));
+        detail::from_eigen(m_solver.solve(detail::to_eigen(b)), x);
     }
 
 private:
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 71607d3..a415031 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -443,9 +443,7 @@ private:
         GOOSEFEM_ASSERT(x_p.size() == m_nnp);
         GOOSEFEM_ASSERT(b_p.size() == m_nnp);
 
-        Eigen::Map<Eigen::VectorXd>(b_p.data(), b_p.size()).noalias() =
-            m_Apu * Eigen::Map<const Eigen::VectorXd>(x_u.data(), x_u.size()) +
-            m_App * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size());
+        detail::from_eigen(m_Apu * detail::to_eigen(x_u) + m_App * detail::to_eigen(x_p), b_p);
     }
 
 private:
@@ -614,11 +612,10 @@ private:
     {
         this->factorize(A);
 
-        Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
-            m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
-                A.m_Aup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
-            ));
+        detail::from_eigen(
+            m_solver.solve(Eigen::VectorXd(detail::to_eigen(b_u) - A.m_Aup * detail::to_eigen(x_p))),
+            x_u
+        );
     }
 
 private:
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 3025106..0ff6024 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -636,12 +636,13 @@ public:
 
         this->factorize(A);
 
-        Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
+        detail::from_eigen(
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
-                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
-                A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
-            ));
+                detail::to_eigen(b_u) + A.m_Cud * detail::to_eigen(b_d) -
+                A.m_ACup * detail::to_eigen(x_p)
+            )),
+            x_u
+        );
     }
 
 private:
-- 
2.43.0


From 2d57eef1212b4ba9f0c7356b9cf3c91e2ca04d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:54 +0000
Subject: [PATCH 24/26] fix: asTensor/AsTensor read the wrong items from a view
 that does not start at the first item of its container

---
 include/GooseFEM/Allocate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Allocate.h b/include/GooseFEM/Allocate.h
index 75f735c..5b5e3c8 100644
--- a/include/GooseFEM/Allocate.h
+++ b/include/GooseFEM/Allocate.h
@@ -75,7 +75,7 @@ struct asTensor_write {
         std::copy(arg.strides().begin(), arg.strides().end(), ret_strides.begin());
         std::fill(ret_strides.begin() + arg.dimension(), ret_strides.end(), 0);
         ret = xt::strided_view(
-            arg, ret.shape(), std::move(ret_strides), 0ul, xt::layout_type::dynamic
+            arg, ret.shape(), std::move(ret_strides), arg.data_offset(), xt::layout_type::dynamic
         );
     }
 };
@@ -97,7 +97,7 @@ struct asTensor_write<
         std::copy(arg.strides().begin(), arg.strides().end(), ret_strides.begin());
         std::fill(ret_strides.begin() + T::rank, ret_strides.end(), 0);
         ret = xt::strided_view(
-            arg, ret.shape(), std::move(ret_strides), 0ul, xt::layout_type::dynamic
+            arg, ret.shape(), std::move(ret_strides), arg.data_offset(), xt::layout_type::dynamic
         );
     }
 };
-- 
2.43.0


From 01c8f234b4936f851e992079983ec5e8d327c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:54 +0000
Subject: [PATCH 25/26] fix: quadrature: arguments that are not row-major were
 read and written as if they were

---
 include/GooseFEM/Element.h                  | 80 ++++++++++++++++-----
 include/GooseFEM/ElementHex8.h              |  3 +-
 include/GooseFEM/ElementQuad4.h             |  3 +-
 include/GooseFEM/ElementQuad4Axisymmetric.h |  3 +-
 include/GooseFEM/ElementQuad4Planar.h       |  3 +-
 include/GooseFEM/detail.h                   | 45 ++++++++++++
 6 files changed, 117 insertions(+), 20 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 7a8c460..e9aed97 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -598,7 +598,7 @@ public:
     {
         size_t n = elemvec.shape(2);
         auto qvector = array_type::tensor<double, 3>::from_shape(this->shape_qvector(n));
-        derived_cast().interpQuad_vector_impl(elemvec, qvector);
+        this->interpQuad_vector(elemvec, qvector);
         return qvector;
     }
 
@@ -611,7 +611,13 @@ public:
     template <class T, class R>
     void interpQuad_vector(const T& elemvec, R& qvector) const
     {
-        derived_cast().interpQuad_vector_impl(elemvec, qvector);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().interpQuad_vector_impl(arg, ret);
+            },
+            elemvec,
+            qvector
+        );
     }
 
     /**
@@ -634,7 +640,7 @@ public:
     auto GradN_vector(const T& elemvec) const -> array_type::tensor<double, 4>
     {
         auto qtensor = array_type::tensor<double, 4>::from_shape(this->template shape_qtensor<2>());
-        derived_cast().gradN_vector_impl(elemvec, qtensor);
+        this->gradN_vector(elemvec, qtensor);
         return qtensor;
     }
 
@@ -647,7 +653,13 @@ public:
     template <class T, class R>
     void gradN_vector(const T& elemvec, R& qtensor) const
     {
-        derived_cast().gradN_vector_impl(elemvec, qtensor);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().gradN_vector_impl(arg, ret);
+            },
+            elemvec,
+            qtensor
+        );
     }
 
     /**
@@ -666,7 +678,7 @@ public:
     auto GradN_vector_T(const T& elemvec) const -> array_type::tensor<double, 4>
     {
         auto qtensor = array_type::tensor<double, 4>::from_shape(this->template shape_qtensor<2>());
-        derived_cast().gradN_vector_T_impl(elemvec, qtensor);
+        this->gradN_vector_T(elemvec, qtensor);
         return qtensor;
     }
 
@@ -679,7 +691,13 @@ public:
     template <class T, class R>
     void gradN_vector_T(const T& elemvec, R& qtensor) const
     {
-        derived_cast().gradN_vector_T_impl(elemvec, qtensor);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().gradN_vector_T_impl(arg, ret);
+            },
+            elemvec,
+            qtensor
+        );
     }
 
     /**
@@ -699,7 +717,7 @@ public:
     auto SymGradN_vector(const T& elemvec) const -> array_type::tensor<double, 4>
     {
         auto qtensor = array_type::tensor<double, 4>::from_shape(this->template shape_qtensor<2>());
-        derived_cast().symGradN_vector_impl(elemvec, qtensor);
+        this->symGradN_vector(elemvec, qtensor);
         return qtensor;
     }
 
@@ -712,7 +730,13 @@ public:
     template <class T, class R>
     void symGradN_vector(const T& elemvec, R& qtensor) const
     {
-        derived_cast().symGradN_vector_impl(elemvec, qtensor);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().symGradN_vector_impl(arg, ret);
+            },
+            elemvec,
+            qtensor
+        );
     }
 
     /**
@@ -732,7 +756,7 @@ public:
     {
         size_t n = qvector.shape(2);
         auto elemvec = array_type::tensor<double, 3>::from_shape(this->shape_elemvec(n));
-        derived_cast().int_N_vector_dV_impl(qvector, elemvec);
+        this->int_N_vector_dV(qvector, elemvec);
         return elemvec;
     }
 
@@ -745,7 +769,13 @@ public:
     template <class T, class R>
     void int_N_vector_dV(const T& qvector, R& elemvec) const
     {
-        derived_cast().int_N_vector_dV_impl(qvector, elemvec);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().int_N_vector_dV_impl(arg, ret);
+            },
+            qvector,
+            elemvec
+        );
     }
 
     /**
@@ -770,7 +800,7 @@ public:
     auto Int_N_scalar_NT_dV(const T& qscalar) const -> array_type::tensor<double, 3>
     {
         auto elemmat = array_type::tensor<double, 3>::from_shape(this->shape_elemmat());
-        derived_cast().int_N_scalar_NT_dV_impl(qscalar, elemmat);
+        this->int_N_scalar_NT_dV(qscalar, elemmat);
         return elemmat;
     }
 
@@ -783,7 +813,13 @@ public:
     template <class T, class R>
     void int_N_scalar_NT_dV(const T& qscalar, R& elemmat) const
     {
-        derived_cast().int_N_scalar_NT_dV_impl(qscalar, elemmat);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().int_N_scalar_NT_dV_impl(arg, ret);
+            },
+            qscalar,
+            elemmat
+        );
     }
 
     /**
@@ -807,7 +843,7 @@ public:
     auto Int_gradN_dot_tensor2_dV(const T& qtensor) const -> array_type::tensor<double, 3>
     {
         auto elemvec = array_type::tensor<double, 3>::from_shape(this->shape_elemvec());
-        derived_cast().int_gradN_dot_tensor2_dV_impl(qtensor, elemvec);
+        this->int_gradN_dot_tensor2_dV(qtensor, elemvec);
         return elemvec;
     }
 
@@ -820,7 +856,13 @@ public:
     template <class T, class R>
     void int_gradN_dot_tensor2_dV(const T& qtensor, R& elemvec) const
     {
-        derived_cast().int_gradN_dot_tensor2_dV_impl(qtensor, elemvec);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().int_gradN_dot_tensor2_dV_impl(arg, ret);
+            },
+            qtensor,
+            elemvec
+        );
     }
 
     // Integral of the dot product
@@ -850,7 +892,7 @@ public:
         -> array_type::tensor<double, 3>
     {
         auto elemmat = array_type::tensor<double, 3>::from_shape(this->shape_elemmat());
-        derived_cast().int_gradN_dot_tensor4_dot_gradNT_dV_impl(qtensor, elemmat);
+        this->int_gradN_dot_tensor4_dot_gradNT_dV(qtensor, elemmat);
         return elemmat;
     }
 
@@ -863,7 +905,13 @@ public:
     template <class T, class R>
     void int_gradN_dot_tensor4_dot_gradNT_dV(const T& qtensor, R& elemmat) const
     {
-        derived_cast().int_gradN_dot_tensor4_dot_gradNT_dV_impl(qtensor, elemmat);
+        detail::call_row_major(
+            [this](const auto& arg, auto& ret) {
+                this->derived_cast().int_gradN_dot_tensor4_dot_gradNT_dV_impl(arg, ret);
+            },
+            qtensor,
+            elemmat
+        );
     }
 
 protected:
diff --git a/include/GooseFEM/ElementHex8.h b/include/GooseFEM/ElementHex8.h
index 3a941ed..b8b14cb 100644
--- a/include/GooseFEM/ElementHex8.h
+++ b/include/GooseFEM/ElementHex8.h
@@ -254,7 +254,8 @@ public:
     template <class T, class X, class W>
     Quadrature(const T& x, const X& xi, const W& w)
     {
-        m_x = x;
+        m_x = xt::empty<double>(x.shape());
+        xt::noalias(m_x) = x;
         m_w = w;
         m_xi = xi;
         m_nip = w.size();
diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index fe890b6..1156bf9 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -276,7 +276,8 @@ public:
     template <class T, class X, class W>
     Quadrature(const T& x, const X& xi, const W& w)
     {
-        m_x = x;
+        m_x = xt::empty<double>(x.shape());
+        xt::noalias(m_x) = x;
         m_w = w;
         m_xi = xi;
         m_nip = w.size();
diff --git a/include/GooseFEM/ElementQuad4Axisymmetric.h b/include/GooseFEM/ElementQuad4Axisymmetric.h
index 33c27bf..586e9c8 100644
--- a/include/GooseFEM/ElementQuad4Axisymmetric.h
+++ b/include/GooseFEM/ElementQuad4Axisymmetric.h
@@ -72,7 +72,8 @@ public:
     template <class T, class X, class W>
     QuadratureAxisymmetric(const T& x, const X& xi, const W& w)
     {
-        m_x = x;
+        m_x = xt::empty<double>(x.shape());
+        xt::noalias(m_x) = x;
         m_w = w;
         m_xi = xi;
         m_nip = w.size();
diff --git a/include/GooseFEM/ElementQuad4Planar.h b/include/GooseFEM/ElementQuad4Planar.h
index d6e3b43..cbac339 100644
--- a/include/GooseFEM/ElementQuad4Planar.h
+++ b/include/GooseFEM/ElementQuad4Planar.h
@@ -80,7 +80,8 @@ public:
     template <class T, class X, class W>
     QuadraturePlanar(const T& x, const X& xi, const W& w, double thick = 1.0)
     {
-        m_x = x;
+        m_x = xt::empty<double>(x.shape());
+        xt::noalias(m_x) = x;
         m_w = w;
         m_xi = xi;
         m_nip = w.size();
diff --git a/include/GooseFEM/detail.h b/include/GooseFEM/detail.h
index 2aff610..545a47e 100644
--- a/include/GooseFEM/detail.h
+++ b/include/GooseFEM/detail.h
@@ -7,9 +7,54 @@
 #ifndef GOOSEFEM_DETAIL_H
 #define GOOSEFEM_DETAIL_H
 
+#include "config.h"
+
 namespace GooseFEM {
 namespace detail {
 
+/**
+ * Check if the items of an array are contiguous in memory, and in row-major order.
+ */
+template <class T, std::enable_if_t<xt::has_strides<T>::value, int> = 0>
+inline bool is_row_major(const T& arg)
+{
+    std::ptrdiff_t stride = 1;
+
+    for (size_t i = arg.dimension(); i-- > 0;) {
+        if (arg.shape(i) != 1 && static_cast<std::ptrdiff_t>(arg.strides()[i]) != stride) {
+            return false;
+        }
+        stride *= static_cast<std::ptrdiff_t>(arg.shape(i));
+    }
+
+    return true;
+}
+
+template <class T, std::enable_if_t<!xt::has_strides<T>::value, int> = 0>
+inline bool is_row_major(const T&)
+{
+    return false;
+}
+
+/**
+ * Call `func(arg, ret)`, whereby `func` relies on the row-major storage of its arguments.
+ * Arguments that are stored differently are copied (`ret` is overwritten by `func`).
+ */
+template <class F, class T, class R>
+inline void call_row_major(const F& func, const T& arg, R& ret)
+{
+    if (is_row_major(arg) && is_row_major(ret)) {
+        func(arg, ret);
+        return;
+    }
+
+    xt::xarray<typename T::value_type, xt::layout_type::row_major> myarg = arg;
+    auto myret =
+        xt::xarray<typename R::value_type, xt::layout_type::row_major>::from_shape(ret.shape());
+    func(myarg, myret);
+    xt::noalias(ret) = myret;
+}
+
 template <size_t nd, typename = void>
 struct tensor {};
 
-- 
2.43.0


From a52f115bfdff8867aaf0b09387ddaaa9b8374c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:29 +0000
Subject: [PATCH 26/26] fix: Mesh::elem2node with DOFs: nodes without elements
 that are tied to others were out of bounds

---
 include/GooseFEM/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 8818344..a48c407 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2520,6 +2520,10 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
     auto ret = elem2node(conn, sorted);
     auto nties = nodaltyings(dofs);
 
+    if (ret.size() < nnode) {
+        ret.resize(nnode); // nodes without elements
+    }
+
     for (size_t m = 0; m < nnode; ++m) {
         if (nties[m].size() <= 1) {
             continue;
-- 
2.43.0

