From db3426ff0abf5c5196cdf746e9a036d5c8a815fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:36 +0000
Subject: [PATCH 01/52] fix: keep add, mul and div exact beyond 2**53 by
 dividing integers by their gcd as integers

---
 src/pyqcstrc/dode2/math1.py | 18 +++++++++---------
 src/pyqcstrc/ico2/math1.py  | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 3d06b91..5ffbda0 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -32,9 +32,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -60,9 +60,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=4*a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -130,9 +130,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=int(c1/g)
-                c2=int(c2/g)
-                c3=int(c3/g)
+                c1=int(c1//g)
+                c2=int(c2//g)
+                c3=int(c3//g)
                 if c3<0:
                     return np.array([-c1,-c2,-c3],dtype=np.int64)
                 else:
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 393e87b..5ecf634 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -31,9 +31,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -59,9 +59,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -124,9 +124,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=c1/g
-                c2=c2/g
-                c3=c3/g
+                c1=c1//g
+                c2=c2//g
+                c3=c3//g
                 if c3<0:
                     return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
                 else:
-- 
2.43.0


From 8fa89a5ecf54fd526f72783a22289c8d60ef6fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:36 +0000
Subject: [PATCH 02/52] fix: det_matrix read an undefined name instead of the
 element (2,1)

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 5ffbda0..191503d 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -654,7 +654,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 5ecf634..45e2047 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -670,7 +670,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
-- 
2.43.0


From 8c0932f35d162c839cbc1cecb35e7fdf15c680bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:36 +0000
Subject: [PATCH 03/52] fix: dot_product_1 of a matrix and a matrix summed over
 the wrong index

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 191503d..b9f010e 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -390,7 +390,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 45e2047..a9188b5 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -384,7 +384,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
-- 
2.43.0


From e18b12fcdf632130af903522a641d82f4aaabb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:36 +0000
Subject: [PATCH 04/52] fix: mul_vectors dropped its result for sets of
 simplices

---
 src/pyqcstrc/dode2/math1.py | 1 +
 src/pyqcstrc/ico2/math1.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index b9f010e..a81e914 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -230,6 +230,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index a9188b5..97e346b 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -224,6 +224,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
-- 
2.43.0


From 1f657fa7436a11b24664dbcfa2b923feec65aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 05/52] fix: generator_equivalent_vectors passed the generator
 function itself instead of the generated vectors

---
 src/pyqcstrc/dode2/symmetry.py | 2 +-
 src/pyqcstrc/ico2/symmetry.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 29aa176..324d37b 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -124,7 +124,7 @@ def generator_obj_symmetric_vec(vectors, centre):
 def generator_equivalent_vectors(vectors,centre):
     """
     """
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index aaa20dd..e6e9ad6 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -110,7 +110,7 @@ def generator_obj_symmetric_vec(vectors, centre):
     return generator_obj_symmetric_obj(vectors,centre)
 
 def generator_equivalent_vectors(vectors,centre):
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
-- 
2.43.0


From 67e666e90d11002364542aab0e30816e1adb3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 06/52] fix: symmetric object by specific operations read an
 undefined list of indices

---
 src/pyqcstrc/dode2/symmetry.py | 8 +++-----
 src/pyqcstrc/ico2/symmetry.py  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 324d37b..7d76723 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -99,12 +99,10 @@ def generator_obj_symmetric_triangle_specific_symop(obj,centre,list_of_symmetry_
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=dodesymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
-        i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
-            i+=1
+        for i,indx in enumerate(list_of_symmetry_operation_index):
+            a[i]=symop_obj(mop[indx],obj,centre)
         return a
     else:
         print('object has an incorrect shape!')
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index e6e9ad6..7704d08 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -91,12 +91,10 @@ def generator_obj_symmetric_tetrahedron_specific_symop(obj,centre,list_of_symmet
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=icosasymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
-        i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
-            i+=1
+        for i,indx in enumerate(list_of_symmetry_operation_index):
+            a[i]=symop_obj(mop[indx],obj,centre)
         return a
     else:
         print('object has an incorrect shape!')
-- 
2.43.0


From 7b510ce207e1cff0464983cda55e3a82babbf94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:31 +0000
Subject: [PATCH 07/52] fix: middle_position read an undefined name

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a1a99ea..a10823a 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -795,7 +795,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b127b59..5e5cb9a 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -1088,7 +1088,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
-- 
2.43.0


From 67c4e77142bc4e1dc63e488039e2697aa70d7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:31 +0000
Subject: [PATCH 08/52] fix: equivalent() compared the number of points of the
 first object with itself

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a10823a..7c532ed 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -466,7 +466,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     """
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 5e5cb9a..df39cfd 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -681,7 +681,7 @@ def equivalent(obj1: NDArray[np.int64], obj2: NDArray[np.int64]) -> bool:
     
     def check1(a,b,n):
         n1,_,_=a.shape
-        n2,_,_=a.shape
+        n2,_,_=b.shape
         if n1==n2:
             a=np.vstack([a,b])
             a=remove_doubling_in_perp_space(a)
-- 
2.43.0


From 137ecbe91b9791399766c3a06a862d5cd6dc7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:31 +0000
Subject: [PATCH 09/52] fix: shared edge of two triangles was looked up in the
 wrong triangle and under undefined names

---
 src/pyqcstrc/dode2/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 7c532ed..ef9c24e 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -709,7 +709,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
 def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> bool:
     """Checking whether triangle_1 and _2 are sharing an edge or not.
     """
-    a=np.vstack([triangle_1,triangle_1])
+    a=np.vstack([triangle_1,triangle_2])
     a=remove_doubling_in_perp_space(a)
     if len(a)==4:
         return True # common edge
@@ -719,8 +719,8 @@ def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDAr
 def get_common_edge_in_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """ Return common edge of two connected triangles.
     """
-    edge1=get_triangle_edge(triangle_1)
-    edge2=get_triangle_edge(triangle_2)
+    edges1=get_triangle_edge(triangle_1)
+    edges2=get_triangle_edge(triangle_2)
     
     count=0
     for edge_1 in edges1:
-- 
2.43.0


From 649a30d25d59d23033c1b940bd8897361e058ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:31 +0000
Subject: [PATCH 10/52] fix: merging two simplices that share a face raised a
 TypeError

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index ef9c24e..5dc3438 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -694,7 +694,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
             # 2つのtriangesを一つのtriangeに結合できる時、その頂点は上の辺の2つの頂点のうち1つの頂点と頂点1と頂点２。
             if point_on_segment(vtx,line_segment):
                 tmp=remove_vector(vtx_common,vtx)
-                triange_new=np.stack(tmp,line_segment)
+                triange_new=np.vstack([tmp,line_segment])
                 flg+=1
                 break
         else:
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index df39cfd..1133526 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -948,7 +948,7 @@ def merge_two_tetrahedra(tetrahedron_1: NDArray[np.int64], tetrahedron_2: NDArra
             # 2つの四面体を一つの四面体に結合できる時、その頂点は上の三角形の3つの頂点のうち2つの頂点と頂点1と頂点２。
             if point_on_segment(vtx,line_segment):
                 tmp=remove_vector(vtx_common,vtx)
-                tetrahedron_new=np.stack(tmp,line_segment)
+                tetrahedron_new=np.vstack([tmp,line_segment])
                 flg+=1
                 break
         else:
-- 
2.43.0


From 54f703add931e20afe324220a6b1b47d2bd88519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:31 +0000
Subject: [PATCH 11/52] fix: removing every vector of a set gave the whole set
 back

---
 src/pyqcstrc/dode2/utils.py | 24 ++++++++----------------
 src/pyqcstrc/ico2/utils.py  | 24 ++++++++----------------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 5dc3438..8b48d90 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -638,14 +638,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -658,14 +654,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 1133526..3a64b37 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -892,14 +892,10 @@ def remove_vectors(vts1: NDArray[np.int64], vts2: NDArray[np.int64]) -> NDArray[
                 break
         if counter==0:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts1[lst[i1]]
-        return out
-    else:
-        return vts1
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts1[lst[i1]]
+    return out
 
 def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.int64]:
     """ remove a 6d vector(vt2) from a set of 6d vectors (vts).
@@ -912,14 +908,10 @@ def remove_vector(vts: NDArray[np.int64], vt: NDArray[np.int64]) -> NDArray[np.i
             pass
         else:
             lst.append(i1)
-    num=len(lst)
-    if num!=0:
-        out=np.zeros((len(lst),6,3),dtype=np.int64)
-        for i1 in range(len(lst)):
-            out[i1]=vts[lst[i1]]
-        return out
-    else:
-        return vts
+    out=np.zeros((len(lst),6,3),dtype=np.int64)
+    for i1 in range(len(lst)):
+        out[i1]=vts[lst[i1]]
+    return out
 
 #################################
 ####
-- 
2.43.0


From a72b5e659f1cd0fff50afd35d8402daf6dcf1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:51 +0000
Subject: [PATCH 12/52] fix: coplanarity test gave no answer when every random
 pick was collinear

---
 src/pyqcstrc/dode2/numericalc.py | 9 +++++----
 src/pyqcstrc/ico2/numericalc.py  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c0e5034..c089288 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -5,6 +5,7 @@
 #
 import numpy as np
 from numpy.typing import NDArray
+import itertools
 import random
 
 TAU=np.sqrt(3)/2.0
@@ -48,8 +49,9 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     if num>3:
         flag=0
         lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
+        # random picks first; if all of them are collinear, go through every pick.
+        picks=itertools.chain((random.sample(lst0, 3) for _ in range(num_iteration)),itertools.combinations(lst0,3))
+        for lst3 in picks:
             #
             xyz1=pns[lst3[1]]-pns[lst3[0]]
             xyz2=pns[lst3[2]]-pns[lst3[0]]
@@ -76,8 +78,7 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
             else:
                 return False
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            return True # all the points are on a line.
     else:
         return True
 
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 4387b5a..ac16536 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -5,6 +5,7 @@
 #
 import numpy as np
 from numpy.typing import NDArray
+import itertools
 import random
 
 TAU=(1+np.sqrt(5))/2.0
@@ -48,8 +49,9 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     if num>3:
         flag=0
         lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
+        # random picks first; if all of them are collinear, go through every pick.
+        picks=itertools.chain((random.sample(lst0, 3) for _ in range(num_iteration)),itertools.combinations(lst0,3))
+        for lst3 in picks:
             #
             xyz1=pns[lst3[1]]-pns[lst3[0]]
             xyz2=pns[lst3[2]]-pns[lst3[0]]
@@ -76,8 +78,7 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
             else:
                 return False
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            return True # all the points are on a line.
     else:
         return True
 
-- 
2.43.0


From dd7fa1e56027e199b677452315236577924aec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:51 +0000
Subject: [PATCH 13/52] fix: inside/outside test of an object raised a
 NameError or answered the opposite

---
 src/pyqcstrc/dode2/numericalc.py | 12 ++++--------
 src/pyqcstrc/ico2/numericalc.py  | 10 +++-------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c089288..dd70d88 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -489,12 +489,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
-    # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=[get_internal_component_sets_numerical(triangle) for triangle in obj]
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -508,11 +504,11 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         vertex coordinates of triangle, (xyz1, xyz2, xyz3), (), (), ...
     """
     flg=0
-    for tetrahedron in obj:
+    for triangle in obj:
         if inside_outside_triangle(point,triangle):
             flg+=1
             break
-    if flg==0:
+    if flg!=0:
         return True # inside
     else:
         return False # outside
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index ac16536..fb93d70 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -423,12 +423,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
-    # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=[get_internal_component_sets_numerical(tetrahedron) for tetrahedron in obj]
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -446,7 +442,7 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         if inside_outside_tetrahedron(point,tetrahedron):
             flg+=1
             break
-    if flg==0:
+    if flg!=0:
         return True # inside
     else:
         return False # outside
-- 
2.43.0


From 6d453e91433acca833ebadf2789d32e757dc2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:19 +0000
Subject: [PATCH 14/52] fix: end point of a segment was judged off the segment
 after rounding

---
 src/pyqcstrc/dode2/numericalc.py | 2 +-
 src/pyqcstrc/ico2/numericalc.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index dd70d88..58196d4 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -111,7 +111,7 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     lBA=np.linalg.norm(vecBA)
     if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
         s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+        if s>=0.0 and s<=1.0+EPS:
             return True
         elif s>1.0:
             return False #       A==B P
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index fb93d70..78bd7aa 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -111,7 +111,7 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     lBA=np.linalg.norm(vecBA)
     if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
         s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+        if s>=0.0 and s<=1.0+EPS:
             return True
         elif s>1.0:
             return False #       A==B P
-- 
2.43.0


From c4be0ff5d8254641a2b7739119f679cb425d9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:41 +0000
Subject: [PATCH 15/52] fix: dodecagonal segments touching at an end point were
 judged apart after rounding

---
 src/pyqcstrc/dode2/numericalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 58196d4..dbf2728 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -422,7 +422,7 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     else:
         s=t1/t2
         t=(-np.dot(vecAC,vecCD)+s*np.dot(vecAB,vecCD))/np.dot(vecCD,vecCD)
-        if s>=0.0 and s<=1.0 and t>=0.0 and t<=1.0:
+        if s>=0.0-EPS and s<=1.0+EPS and t>=0.0-EPS and t<=1.0+EPS:
             dd=0
             for i in range(3):
                 dd+=((L2a[i]-L1a[i])-s*(L1b[i]-L1a[i])+t*(L2b[i]-L2a[i]))**2
-- 
2.43.0


From 8f4cc194093558a8c1ca60620299c3417e1999b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:41 +0000
Subject: [PATCH 16/52] fix: intersection of two triangles whose edges do not
 meet raised an UnboundLocalError

---
 src/pyqcstrc/dode2/intsct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 552b302..f723659 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -383,7 +383,8 @@ def intersection_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArra
             else:
                 tmp=np.vstack([tmp,vtx]) # intersecting points
             counter+=1
-    tmp=tmp.reshape(int(len(tmp)/6),6,3)
+    if counter>0:
+        tmp=tmp.reshape(int(len(tmp)/6),6,3)
     
     # get vertces of triangle_1 that are inside triangle_2
     for vtx in triangle_1:
-- 
2.43.0


From 9dcc37f94c6414275394af4937e3d04c87eba517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:03 +0000
Subject: [PATCH 17/52] fix: convex intersection raised NameError,
 UnboundLocalError or ValueError unless each object had corners in the other

---
 src/pyqcstrc/dode2/intsct.py | 12 ++++++++----
 src/pyqcstrc/ico2/intsct.py  |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index f723659..c4b14ac 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -608,7 +608,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     for vrtx in vertices1:
         counter2a=0
         for triangle2 in obj2:
-            if inside_outside_ttriangle_tau(vrtx,triangle2):
+            if inside_outside_triangle_tau(vrtx,triangle2):
                 counter2a+=1
                 break
             else:
@@ -664,7 +664,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
         for tr1 in obj1_surf:
             for ed2 in obj2_edge:
                 if check_intersection_segment_surface_numerical_6d_tau(ed2,tr1): # intersection
-                    tmp=intersection_segment_surface(ed2,tr1)
+                    tmp=intersection_segment_surface(ed2,tr1).reshape(-1,6,3)
                     if counter==0:
                         p=tmp
                     else:
@@ -675,7 +675,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
         for tr2 in obj2_surf:
             for ed1 in obj1_edge:
                 if check_intersection_segment_surface_numerical_6d_tau(ed1,tr2): # intersection
-                    tmp=intersection_segment_surface(ed1,tr2)
+                    tmp=intersection_segment_surface(ed1,tr2).reshape(-1,6,3)
                     if counter==0:
                         p=tmp
                     else:
@@ -691,7 +691,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=triangulation_points(points)
             if np.all(common==None):
diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 1ac3f3e..391855a 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -768,7 +768,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=tetrahedralization_points(points)
             if np.all(common==None):
-- 
2.43.0


From 4828452a78063ef21b169b513f84967fb2dfa5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:03 +0000
Subject: [PATCH 18/52] fix: tetrahedralization of points without interior
 raised a TypeError instead of returning nothing

---
 src/pyqcstrc/ico2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 3a64b37..7fb6f15 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -852,7 +852,7 @@ def tetrahedralization_points(points: NDArray[np.int64]) -> NDArray[np.int64]:
         
     ltmp=decomposition(tmp)
     p=points
-    if ltmp!=[0]:
+    if ltmp is not None:
         counter=0
         for i in ltmp:
             tmp3=np.array([p[i[0]],p[i[1]],p[i[2]],p[i[3]]]).reshape(4,6,3)
-- 
2.43.0


From 8d206d206c0ef07425dfff0e467c28d638147435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:35 +0000
Subject: [PATCH 19/52] fix: faces and edges named by different 6-d vectors of
 the same internal points were not recognised as equal

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 8b48d90..9d8d3ae 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -263,7 +263,7 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     a=np.zeros((num_edges,3),dtype=np.float64)
     for i1 in range(num_edges):
         vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
+        a[i1]=numerical_vector(projection3(vt))
     b=np.unique(a,return_index=True,axis=0)[1]
     num=len(b)
     #print('number of unique edges:',num)
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 7fb6f15..14537a2 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -248,7 +248,7 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
         xyz=np.zeros((n1*4,3),dtype=np.float64)
         for i1 in range(n1*4):
             vt=centroid(triangles[i1])
-            xyz[i1]=get_internal_component_numerical(vt)
+            xyz[i1]=numerical_vector(projection3(vt))
         
         """
         # 以下のやり方では効率悪い。
@@ -356,7 +356,7 @@ def generator_unique_triangles(obj: NDArray[np.int64]) -> NDArray[np.int64]:
         a=np.zeros((n1*4,3),dtype=np.float64)
         for i1 in range(n1*4):
             vt=centroid(triangles[i1])
-            a[i1]=get_internal_component_numerical(vt)
+            a[i1]=numerical_vector(projection3(vt))
         b=np.unique(a,return_index=True,axis=0)[1]
         num=len(b)
         #print('number of unique trianges:',num)
@@ -452,7 +452,7 @@ def generator_unique_edges(obj: NDArray[np.int64]) -> NDArray[np.int64]:
     a=np.zeros((num_edges,3),dtype=np.float64)
     for i1 in range(num_edges):
         vt=centroid(edges[i1])
-        a[i1]=get_internal_component_numerical(vt)
+        a[i1]=numerical_vector(projection3(vt))
     b=np.unique(a,return_index=True,axis=0)[1]
     num=len(b)
     #print('number of unique edges:',num)
-- 
2.43.0


From 70e930ab39d0b7f7af055571ee611872f435f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:57 +0000
Subject: [PATCH 20/52] fix: field arithmetic overflowed in intermediate 64-bit
 products and returned wrong numbers for results that fit

---
 src/pyqcstrc/dode2/math1.py | 28 ++++++++++++++++------------
 src/pyqcstrc/ico2/math1.py  | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index a81e914..2787bc6 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+import math
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -27,18 +28,19 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a] # Python integers, which do not overflow
+    b=[int(i) for i in b]
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3) or 1
     c1=int(c1//g)
     c2=int(c2//g)
     c3=int(c3//g)
     if c3<0:
-        return np.array([-c1,-c2,-c3])
+        return np.array([-c1,-c2,-c3],dtype=np.int64)
     else:
-        return np.array([c1,c2,c3])
+        return np.array([c1,c2,c3],dtype=np.int64)
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -55,18 +57,19 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a] # Python integers, which do not overflow
+    b=[int(i) for i in b]
     c1=4*a[0]*b[0]+3*a[1]*b[1]
     c2=4*(a[0]*b[1]+a[1]*b[0])
     c3=4*a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3) or 1
     c1=int(c1//g)
     c2=int(c2//g)
     c3=int(c3//g)
     if c3<0:
-        return np.array([-c1,-c2,-c3])
+        return np.array([-c1,-c2,-c3],dtype=np.int64)
     else:
-        return np.array([c1,c2,c3])
+        return np.array([c1,c2,c3],dtype=np.int64)
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -102,11 +105,13 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
-    if np.all(b[:2]==0):
+    a=[int(i) for i in a] # Python integers, which do not overflow
+    b=[int(i) for i in b]
+    if b[0]==0 and b[1]==0:
         print('ERROR_1:division error')
         return 
     else:
-        if np.all(a[:2]==0):
+        if a[0]==0 and a[1]==0:
             return np.array([0,0,1],dtype=np.int64)
         else:
             if b[1]!=0:
@@ -127,8 +132,7 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
+            g=math.gcd(c1,c2,c3)
             if g!=0:
                 c1=int(c1//g)
                 c2=int(c2//g)
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 97e346b..9132bd2 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+import math
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -26,18 +27,19 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a] # Python integers, which do not overflow
+    b=[int(i) for i in b]
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3) or 1
     c1=c1//g
     c2=c2//g
     c3=c3//g
     if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
+        return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
     else:
-        return np.array([int(c1),int(c2),int(c3)])
+        return np.array([int(c1),int(c2),int(c3)],dtype=np.int64)
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -54,18 +56,19 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a] # Python integers, which do not overflow
+    b=[int(i) for i in b]
     c1=a[0]*b[0]+a[1]*b[1]
     c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3) or 1
     c1=c1//g
     c2=c2//g
     c3=c3//g
     if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
+        return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
     else:
-        return np.array([int(c1),int(c2),int(c3)])
+        return np.array([int(c1),int(c2),int(c3)],dtype=np.int64)
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -101,11 +104,13 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
-    if np.all(b[:2]==0):
+    a=[int(i) for i in a] # Python integers, which do not overflow
+    b=[int(i) for i in b]
+    if b[0]==0 and b[1]==0:
         print('ERROR_1:division error')
         return 
     else:
-        if np.all(a[:2]==0):
+        if a[0]==0 and a[1]==0:
             return np.array([0,0,1],dtype=np.int64)
         else:
             if b[1]!=0:
@@ -121,8 +126,7 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
+            g=math.gcd(c1,c2,c3)
             if g!=0:
                 c1=c1//g
                 c2=c2//g
-- 
2.43.0


From 2d0f708e0e9a89791ce82f86b9fe9756279f6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 21/52] fix: merging two simplices failed when their common
 corners have different 6-d names

---
 src/pyqcstrc/dode2/utils.py | 4 ++--
 src/pyqcstrc/ico2/utils.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index 9d8d3ae..272fe2e 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -677,8 +677,8 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
     """Return merged tetrahedra.
     """
     if check_connectivity_triangles(triangle_1,triangle_2): # triangle1とtriangle2が共通する辺を持つ場合
-        vtx1=remove_vectors(triangle_1,triangle_2) # triangle1からtriangle1とtriangle2の共通頂点を消す --> 頂点1
-        vtx2=remove_vectors(triangle_2,triangle_1) # triangle2からtriangle1とtriangle2の共通頂点を消す --> 頂点2
+        vtx1=np.array([v1 for v1 in triangle_1 if not any(equivalent_vertices(v1,v2) for v2 in triangle_2)]) # triangle1からtriangle1とtriangle2の共通頂点を消す --> 頂点1
+        vtx2=np.array([v2 for v2 in triangle_2 if not any(equivalent_vertices(v2,v1) for v1 in triangle_1)]) # triangle2からtriangle1とtriangle2の共通頂点を消す --> 頂点2
         vtx_common=get_common_edge_in_two_triangles(triangle_1,triangle_2) # triangle1とtriangle2の共通する辺
         line_segment=np.vstack([vtx1,vtx2])# 頂点1と頂点２を繋いだ辺
         flg=0
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 14537a2..9a704b0 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -931,8 +931,8 @@ def merge_two_tetrahedra(tetrahedron_1: NDArray[np.int64], tetrahedron_2: NDArra
     """Return merged tetrahedra.
     """
     if check_connectivity_tetrahedra(tetrahedron_1,tetrahedron_2): # tet1とtet2が共通する三角形を持つ場合
-        vtx1=remove_vectors(tetrahedron_1,tetrahedron_2) # tet1からtet1とtet2の共通頂点を消す --> 頂点1
-        vtx2=remove_vectors(tetrahedron_2,tetrahedron_1) # tet2からtet1とtet2の共通頂点を消す --> 頂点2
+        vtx1=np.array([v1 for v1 in tetrahedron_1 if not any(equivalent_vertices(v1,v2) for v2 in tetrahedron_2)]) # tet1からtet1とtet2の共通頂点を消す --> 頂点1
+        vtx2=np.array([v2 for v2 in tetrahedron_2 if not any(equivalent_vertices(v2,v1) for v1 in tetrahedron_1)]) # tet2からtet1とtet2の共通頂点を消す --> 頂点2
         vtx_common=get_common_triangle_in_two_tetrahedra(tetrahedron_1,tetrahedron_2) # tet1とtet2の共通する三角形
         line_segment=np.vstack([vtx1,vtx2])# 頂点1と頂点２を繋いだ辺
         flg=0
-- 
2.43.0


From a9c57be95bbcd747e8f715da6e33355eb867621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:52 +0000
Subject: [PATCH 22/52] fix: dode2 site symmetry: compare with the site modulo
 every lattice translation

site_symmetry() and site_symmetry_and_coset() only tried translations by -1, 0, 1, so a
site outside (or at the edge of) the unit cell, e.g. (1,0,0,0), was given a site symmetry
that was too small.
---
 src/pyqcstrc/dode2/symmetry.py | 39 +++++++++++++++-------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 7d76723..1ea7db8 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -186,6 +186,16 @@ def translation(ndim):
                             symop.append(tmp)
     return symop
 
+def is_lattice_vector(vt,ndim):
+    """check whether a vector in TAU-style is a lattice translation
+    """
+    for i,(a,b,c) in enumerate(vt):
+        if b!=0 or a%c!=0 or (i>=ndim and a!=0):
+            return False
+        else:
+            pass
+    return True
+
 ################ 
 # site symmetry
 ################
@@ -206,20 +216,14 @@ def site_symmetry(site,ndim=5):
     """
     
     symop=dodesymop()
-    traop=translation(ndim)
     
     list1=[]
     for i2,op in enumerate(symop):
         site1=symop_vec(op,site,V0)
-        flag=0
-        for top in traop:
-            site2=add_vectors(site1,top)
-            tmp=sub_vectors(site,site2)
-            if length_numerical(tmp)<EPS:
-                list1.append(i2)
-                break
-            else:
-                pass
+        if is_lattice_vector(sub_vectors(site,site1),ndim):
+            list1.append(i2)
+        else:
+            pass
     return remove_overlaps(list1)
 
 def coset(site,ndim=5):
@@ -303,7 +307,6 @@ def site_symmetry_and_coset(site,ndim,verbose):
     #        The symmetry operators generates equivalent positions of the site xyz.
     
     symop=dodesymop()
-    traop=translation(ndim)
     
     # List of index of symmetry operators of the site symmetry group G.
     # The symmetry operators leaves xyz identical.
@@ -344,17 +347,9 @@ def site_symmetry_and_coset(site,ndim,verbose):
     
     for i2,op in enumerate(symop):
         site1=symop_vec(op,site,V0)
-        flag=0
-        for top in traop:
-            site2=add_vectors(site1,top)
-            tmp=sub_vectors(site,site2)
-            if length_numerical(tmp)<EPS:
-                list1.append(i2)
-                flag+=1
-                break
-            else:
-                pass
-        if flag==0:
+        if is_lattice_vector(sub_vectors(site,site1),ndim):
+            list1.append(i2)
+        else:
             list2.append(i2)
     
     list1_new=remove_overlaps(list1)
-- 
2.43.0


From c4865bb5fbfc91c95af71a9a35e0792fd2d76701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:01 +0000
Subject: [PATCH 23/52] fix: dode2 site_symmetry_and_coset: verbose output used
 the projection on exact coordinates

With verbose>0 the call ended in an exception.
---
 src/pyqcstrc/dode2/symmetry.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 1ea7db8..1741150 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -317,16 +317,8 @@ def site_symmetry_and_coset(site,ndim,verbose):
     
     if verbose>0:
         
-        xyz=projection_numerical(site)
-        xe=xyz[0]
-        ye=xyz[1]
-        ze=xyz[2]
-        xi=xyz[3]
-        yi=xyz[4]
-        #zi=xyz[5]
-        
         sn=numerical_vector(site)
-        xyzn=numerical_vector(xyz)
+        xyzn=projection_numerical(sn)
         xen=xyzn[0]
         yen=xyzn[1]
         zen=xyzn[2]
-- 
2.43.0


From 5ff1193b9fe99aac3127afdd6e995c19fe1c7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:08 +0000
Subject: [PATCH 24/52] fix: dode2 generate_border_edges called a function that
 does not exist

The triangles of a dodecagonal domain are the surface already.
---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ca96e94..18499e2 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1133,8 +1133,7 @@ def generate_border_edges(obj):
             The shape is (num,2,6,3), where num=numbre_of_edge.
     
     """
-    triangle_surface=utils.generator_surface_1(obj)
-    return utils.surface_cleaner(triangle_surface)
+    return utils.surface_cleaner(obj)
 
 def outline(obj):
     """
-- 
2.43.0


From 2fdfc7d3558fc7974389b2c0ee3cfdd45b1a813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:44 +0000
Subject: [PATCH 25/52] fix: simplification replaced a non-convex domain by its
 convex hull

The volume of the part common to the domain and its hull is always that of the domain;
the hull may stand in for the domain only if the hull itself has the volume of the domain.
---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 src/pyqcstrc/ico2/occupation_domain.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 18499e2..a44b4e0 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1107,8 +1107,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_area_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_area_6d(obj_tmp)
+        vol1=utils.obj_area_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6e3aec8..a3cb746 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1141,8 +1141,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_volume_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_volume_6d(obj_tmp)
+        vol1=utils.obj_volume_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
-- 
2.43.0


From 944db29c400558facde2b15675f8b944e8edefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:08 +0000
Subject: [PATCH 26/52] fix: ico2 write_vesta treated every selection as a set
 of edges

"select=='simple' or 'egdes'" is always true: with the default selection one bond per
tetrahedron was written instead of the tetrahedra, and 'podatm' returned no vertices.
---
 src/pyqcstrc/ico2/occupation_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index a3cb746..0ab25ae 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -188,7 +188,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     #dmax=5.0
     dmax=10.0
     
-    if select=='simple' or 'egdes':
+    if select=='simple' or select=='egdes':
         
         if np.all(obj==None):
             print('no volume obj')
@@ -620,7 +620,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
                 print('    written in %s'%(file_name))
             return 0
     
-    if select == 'podatm':
+    elif select == 'podatm':
         
         if np.all(obj==None):
             print('no volume obj')
-- 
2.43.0


From ff4fd99822e20e20bbaf974a275d5ae7324f9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:08 +0000
Subject: [PATCH 27/52] fix: write_vesta called a function that does not exist
 for the selections 'simple' and 'podatm'

---
 src/pyqcstrc/dode2/occupation_domain.py | 4 ++--
 src/pyqcstrc/ico2/occupation_domain.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index a44b4e0..43ab2ef 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -205,7 +205,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj,verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -640,7 +640,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 0ab25ae..9922e25 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -197,7 +197,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj, verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -627,7 +627,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
-- 
2.43.0


From 09240abcce7f745182f2cc9c31ba079e115b206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:08 +0000
Subject: [PATCH 28/52] fix: write_vesta with select='podatm' ended in an
 exception

The list of bonds was indexed by an integer; the labels of the bonded vertices were one too large.
---
 src/pyqcstrc/dode2/occupation_domain.py | 5 +++--
 src/pyqcstrc/ico2/occupation_domain.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 43ab2ef..ef6a079 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -653,12 +653,12 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
                     for vrtx in vertices:
                         tmp=np.vstack([edge[i2],vrtx])
                         tmp=utils.remove_doubling_in_perp_space(tmp.reshape(2,6,3))
-                        i3+=1
                         if len(tmp)==1:
                             a.append(i3)
                             break
                         else:
                             pass
+                        i3+=1
                 pairs.append(a)
                 
             print('#VESTA_FORMAT_VERSION 3.5.0\n', file=f)
@@ -708,7 +708,8 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            i2=0
+            for pair in pairs:
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
                 i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
                 i2+=1
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 9922e25..076f6b3 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -640,12 +640,12 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
                     for vrtx in vertices:
                         tmp=np.vstack([edge[i2],vrtx])
                         tmp=utils.remove_doubling_in_perp_space(tmp.reshape(2,6,3))
-                        i3+=1
                         if len(tmp)==1:
                             a.append(i3)
                             break
                         else:
                             pass
+                        i3+=1
                 pairs.append(a)
                 
             print('#VESTA_FORMAT_VERSION 3.5.0\n', file=f)
@@ -695,7 +695,8 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            i2=0
+            for pair in pairs:
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
                 i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
                 i2+=1
-- 
2.43.0


From b3b7e2d6529d540d52d599fe0bd1e0f30466c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:26 +0000
Subject: [PATCH 29/52] fix: dode2 write_xyz wrote every selection as triangles

"select == 'triangle' or 't'" is always true: for a set of edges the first line announced more
points than the file holds, and it could not be read back.
---
 src/pyqcstrc/dode2/occupation_domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ef6a079..fb5e610 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -990,17 +990,17 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #    if verbose>0:
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
-        if select == 'triangle' or 't':
+        if select == 'triangle' or select == 't':
             generator_xyz_dim4_triangle(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'edge' or 'e':
+        elif select == 'edge' or select == 'e':
             generator_xyz_dim4_edge(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'vertex' or 'v':
+        elif select == 'vertex' or select == 'v':
             generator_xyz_dim4_vertex(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
-- 
2.43.0


From 8ef65f8a1ca1af733fd3977c6c9749ecd51a2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:26 +0000
Subject: [PATCH 30/52] fix: write_xyz refused a set of vertices, which has
 three dimensions

---
 src/pyqcstrc/dode2/occupation_domain.py | 2 +-
 src/pyqcstrc/ico2/occupation_domain.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index fb5e610..3f3c9b6 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -980,7 +980,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=(3 if select in ('vertex','v') else 4):
         print('object has an incorrect shape!')
         return 
     else:
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 076f6b3..915f131 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1014,7 +1014,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=(3 if select=='vertex' else 4):
         print('object has an incorrect shape!')
         return 
     else:
-- 
2.43.0


From 25ee2ad1595cfc60018ecbd6a45c211808e71e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:26 +0000
Subject: [PATCH 31/52] fix: ico2 write_xyz numbered every vertex 0

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 915f131..f261e8e 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1007,7 +1007,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-            i1=0
+            i1+=1
         f.closed
         return 0
     
-- 
2.43.0


From 15378b12361c550cbf6c6e0d683a883218111214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:26 +0000
Subject: [PATCH 32/52] fix: ico2 write_xyz gave the volume of the last
 tetrahedron for all of them

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index f261e8e..d8bcf97 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -901,7 +901,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         vol=utils.obj_volume_6d(obj)
         f.write('volume = %d %d %d (%8.6f)\n'%(vol[0],vol[1],vol[2],numericalc.numeric_value(vol)))
         for i1 in range(len(obj)):
-            v=utils.tetrahedron_volume_6d(tetrahedron)
+            v=utils.tetrahedron_volume_6d(obj[i1])
             f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\n'\
                     %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))
         f.close()
-- 
2.43.0


From a94d1e039e7da1f2ad4beeea1352b3d1d0b854fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:26 +0000
Subject: [PATCH 33/52] fix: obj2podatm lost corners given by different 6-d
 vectors

The common vertex is found by its position in perpendicular space, but the other corners were
looked up by their 6-d coordinates, so that a corner with another name got no index.
---
 src/pyqcstrc/dode2/occupation_domain.py | 4 ++--
 src/pyqcstrc/ico2/occupation_domain.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 3f3c9b6..6843871 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1203,7 +1203,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         # generate a list of verices and remove the common vertex from it.
         vtxs=utils.remove_doubling_in_perp_space(obj)
-        vtxs=utils.remove_vector(vtxs,vrtx0)
+        vtxs=np.array([vtx for vtx in vtxs if not utils.equivalent_vertices(vtx,vrtx0)])
         
         #--------
         #  pod
@@ -1218,7 +1218,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for triangle in obj:
             for vrtx1 in triangle:
                 for i1 in range(len(vtxs)):
-                    if np.all(vrtx1==vtxs[i1]):
+                    if utils.equivalent_vertices(vrtx1,vtxs[i1]):
                         lst_indx.append(i1+1) # add 1 to avoide index 0.
                         break
                     else:
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index d8bcf97..bd973a3 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1224,7 +1224,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         
         # generate a list of verices and remove the common vertex from it.
         vtxs=utils.remove_doubling_in_perp_space(obj)
-        vtxs=utils.remove_vector(vtxs,vrtx0)
+        vtxs=np.array([vtx for vtx in vtxs if not utils.equivalent_vertices(vtx,vrtx0)])
         
         #--------
         #  pod
@@ -1239,7 +1239,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for tetrahedron in obj:
             for vrtx1 in tetrahedron:
                 for i1 in range(len(vtxs)):
-                    if np.all(vrtx1==vtxs[i1]):
+                    if utils.equivalent_vertices(vrtx1,vtxs[i1]):
                         lst_indx.append(i1+1) # add 1 to avoide index 0.
                         break
                     else:
-- 
2.43.0


From 5aa2e7b961e6af14399a31160cc28d7f3e12d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:49 +0000
Subject: [PATCH 34/52] fix: obj2podatm announced the number of corners instead
 of the number of simplices

nth is followed by the corner indices of each simplex (see write_podatm).
---
 src/pyqcstrc/dode2/occupation_domain.py | 2 +-
 src/pyqcstrc/ico2/occupation_domain.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 6843871..bde9a41 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1223,7 +1223,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
                         break
                     else:
                         pass
-        fpod.write('nth= %d'%(len(vtxs)))
+        fpod.write('nth= %d'%(len(obj)))
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index bd973a3..de83acf 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1244,7 +1244,7 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
                         break
                     else:
                         pass
-        fpod.write('nth= %d'%(len(vtxs)))
+        fpod.write('nth= %d'%(len(obj)))
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
-- 
2.43.0


From a013bcf73bfd24ec53a3eb3d314854d1eb73a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 35/52] fix: compiled arithmetic reduces fractions with integer
 division

---
 src_cython/dode/math12.pyx | 24 ++++++++++++------------
 src_cython/ico/math1.pyx   | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src_cython/dode/math12.pyx b/src_cython/dode/math12.pyx
index 7c2976d..185c660 100755
--- a/src_cython/dode/math12.pyx
+++ b/src_cython/dode/math12.pyx
@@ -91,10 +91,10 @@ cpdef list add(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     c3=p3*q3
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
-    if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+    if c3<0:
+        return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
 
 cpdef list sub(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE_int_t q2,DTYPE_int_t q3): # A-B
     cdef DTYPE_int_t c1,c2,c3,gcd
@@ -104,10 +104,10 @@ cpdef list sub(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     c3=p3*q3
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
-    if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+    if c3<0:
+        return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
 
 cpdef list mul(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE_int_t q2,DTYPE_int_t q3): # A*B
     cdef DTYPE_int_t c1,c2,c3,gcd
@@ -118,10 +118,10 @@ cpdef list mul(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
     #print('c1,c2,c3,gcd = %d %d %d %d'%(c1,c2,c3,gcd))
-    if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+    if c3<0:
+        return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
 
 cpdef list div(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE_int_t q2,DTYPE_int_t q3): # A/B
     cdef DTYPE_int_t c1,c2,c3,gcd
@@ -154,10 +154,10 @@ cpdef list div(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
             x=np.array([c1,c2,c3])
             gcd=np.gcd.reduce(x)
             if gcd!=0:
-                if c3/gcd<0:
-                    return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+                if c3<0:
+                    return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
                 else:
-                    return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+                    return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
             else:
                 print('ERROR_2:division error',c1,c2,c3,p1,p2,p3,q1,q2,q3)
                 return 1
diff --git a/src_cython/ico/math1.pyx b/src_cython/ico/math1.pyx
index ea36de3..c3d7dd3 100755
--- a/src_cython/ico/math1.pyx
+++ b/src_cython/ico/math1.pyx
@@ -361,10 +361,10 @@ cpdef list add(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     c3=p3*q3
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
-    if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+    if c3<0:
+        return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -376,10 +376,10 @@ cpdef list sub(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     c3=p3*q3
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
-    if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+    if c3<0:
+        return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -391,10 +391,10 @@ cpdef list mul(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
     c3=p3*q3
     x=np.array([c1,c2,c3])
     gcd=np.gcd.reduce(x)
-    if c3/gcd<0:
-        return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+    if c3<0:
+        return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
     else:
-        return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+        return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -424,10 +424,10 @@ cpdef list div(DTYPE_int_t p1,DTYPE_int_t p2,DTYPE_int_t p3,DTYPE_int_t q1,DTYPE
             x=np.array([c1,c2,c3])
             gcd=np.gcd.reduce(x)
             if gcd!=0:
-                if c3/gcd<0:
-                    return [int(-c1/gcd),int(-c2/gcd),int(-c3/gcd)]
+                if c3<0:
+                    return [int(-c1//gcd),int(-c2//gcd),int(-c3//gcd)]
                 else:
-                    return [int(c1/gcd),int(c2/gcd),int(c3/gcd)]
+                    return [int(c1//gcd),int(c2//gcd),int(c3//gcd)]
             else:
                 print('ERROR_2:division error',c1,c2,c3,p1,p2,p3,q1,q2,q3)
                 return 1
-- 
2.43.0


From 2b49bbb10cf6b506971406a3e777ee546704fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 36/52] fix: dodecagonal generators shape their images by the
 number of vectors

---
 src_cython/dode/symmetry12.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_cython/dode/symmetry12.pyx b/src_cython/dode/symmetry12.pyx
index 2449abf..16fffca 100755
--- a/src_cython/dode/symmetry12.pyx
+++ b/src_cython/dode/symmetry12.pyx
@@ -100,7 +100,7 @@ cpdef np.ndarray generator_obj_symmetric_triangle(np.ndarray[DTYPE_int_t, ndim=3
         od.extend(symop_obj(mop[i],obj,centre))
     #tmp4=np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
     #return tmp4
-    return np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
+    return np.array(od).reshape(-1,3,6,3)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -115,7 +115,7 @@ cpdef np.ndarray generator_obj_symmetric_triangle_specific_symop(np.ndarray[DTYP
         od.extend(symop_obj(symmetry_operation[i],obj,centre))
     #tmp4=np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
     #return tmp4
-    return np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
+    return np.array(od).reshape(-1,3,6,3)
     
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -163,7 +163,7 @@ cpdef np.ndarray generator_obj_symmetric_vec(np.ndarray[DTYPE_int_t, ndim=3] vec
         for i2 in range(len(vectors)):
             od.extend(symop_vec(mop[i1],vectors[i2],centre))
     #tmp3=np.array(od).reshape(24,int(len(od)/18/24),6,3) # 18=6*3
-    return np.array(od).reshape(24,int(len(od)/18/24),6,3) # 18=6*3
+    return np.array(od).reshape(24,len(vectors),6,3)
     #return tmp3
 
 @cython.boundscheck(False)
@@ -221,7 +221,7 @@ cpdef np.ndarray generator_equivalent_vec(np.ndarray[DTYPE_int_t, ndim=2] vector
     mop=dodesymop()
     for i1 in range(len(mop)):
         od.extend(symop_vec(mop[i1],vector,centre))
-    tmp3=np.array(od).reshape(int(len(od)/18),6,3) # 18=6*3
+    tmp3=np.array(od).reshape(len(mop),6,3)
     return remove_doubling_dim3(tmp3)
     #return remove_doubling_dim3_in_perp_space(tmp3)
     
-- 
2.43.0


From b4b1ecf12d2ceaf271ec3bd97374560672c2b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 37/52] fix: symmetric_12 uses its argument and a valid origin

---
 src_cython/dode/occupation_domain.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index 4f656d7..a830744 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -24,7 +24,7 @@ except ImportError:
 
 
 SIN=np.sqrt(3)/2.0
-V0=np.array([[0,0,0],[0,0,0],[0,0,0],[0,0,0],[0,0,0],[0,0,0]])
+V0=np.array([[0,0,1],[0,0,1],[0,0,1],[0,0,1],[0,0,1],[0,0,1]])
 
 def as_it_is(obj):
     """
@@ -524,11 +524,11 @@ def symmetric_12(obj):
     
     """
     
-    if asymmetric_part_obj.ndim == 3:
-        return symmetry12.generator_obj_symmetric_triangle(asymmetric_part_obj, V0)
-    elif asymmetric_part_obj.ndim == 4:
-        asymmetric_part_obj=asymmetric_part_obj.reshape(len(asymmetric_part_obj)*3,6,3)
-        return symmetry12.generator_obj_symmetric_triangle(asymmetric_part_obj, V0)
+    if obj.ndim == 3:
+        return symmetry12.generator_obj_symmetric_triangle(obj, V0)
+    elif obj.ndim == 4:
+        obj=obj.reshape(len(obj)*3,6,3)
+        return symmetry12.generator_obj_symmetric_triangle(obj, V0)
 
 def site_symmetry(wyckoff_position, verbose=0):
     """
-- 
2.43.0


From 81b0960fed6df9bf4d114b41ac2fbb92b091557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 38/52] fix: symmetric works at a site with no symmetry but the
 identity

---
 src_cython/dode/occupation_domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index a830744..56b0b81 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -745,8 +745,7 @@ def symmetric(asymmetric_unit, site, verbose = 0):
         if i==0:
             objs=obj1
         else:
-            objs=np.append(objs,obj1)
-    objs=objs.reshape(int(len(objs)/54),3,6,3)
+            objs=np.vstack([objs,obj1])
     
     return objs
 
-- 
2.43.0


From be3436e008ccd54a18562c5e907c4d01d64aba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:35 +0000
Subject: [PATCH 39/52] fix: qcstrc applies a phason matrix that has a zero
 element

---
 src_cython/dode/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index 56b0b81..cc8bcb2 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -888,7 +888,7 @@ def similarity(obj,order):
 def qcstrc(obj, positions, path, basename, atm, phason_matrix, nmax, shift, origin_shift, verbose = 1, option = 0):
     
     #if phason_matrix == 0 or phason_matrix==[[[0]]] or phason_matrix==[[0]] or phason_matrix==[0]:
-    if np.all(phason_matrix)==0:
+    if not np.any(phason_matrix):
         phason_matrix = np.array([[0.0]])
     else:
         pass
-- 
2.43.0


From 32d2b76e27772c15ca20996545374799042c2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:47 +0000
Subject: [PATCH 40/52] fix: intersection_convex answers when no vertex or no
 edge of one domain meets the other

---
 src_cython/ico/intsct.pyx                | 190 ++++++++++++-----------
 src_cython/ico/two_occupation_domains.py |   3 +
 2 files changed, 99 insertions(+), 94 deletions(-)

diff --git a/src_cython/ico/intsct.pyx b/src_cython/ico/intsct.pyx
index 713397c..b0c34b6 100755
--- a/src_cython/ico/intsct.pyx
+++ b/src_cython/ico/intsct.pyx
@@ -49,6 +49,7 @@ cpdef list intersection_two_obj_convex(np.ndarray[DTYPE_int_t, ndim=4] obj1,
     obj1_edge=generator_edge(obj1_surf,verbose)
     obj2_edge=generator_edge(obj2_surf,verbose)
     
+    p=np.zeros(0,dtype=int)
     counter=0
     for i1 in range(len(obj1_surf)):
         tr1=obj1_surf[i1]
@@ -76,102 +77,103 @@ cpdef list intersection_two_obj_convex(np.ndarray[DTYPE_int_t, ndim=4] obj1,
                 counter+=1
             else:
                 pass
-    if counter==0:
-        return np.array([[[[0]]]])
-    else:
-        point=p.reshape(int(len(p)/18),6,3) # 18=6*3
-        point1=remove_doubling_dim3_in_perp_space(point)
-        #print(' dividing into three PODs:')
-        #print('    Common   :     OD1 and     ODB')
-        #print('  UnCommon 1 :     OD1 and Not OD2')
-        #print('  UnCommon 2 : Not OD1 and     OD2')
-        #
-        # --------------------------
-        # (1) Extract vertces of 2nd OD which are insede 1st OD --> point_a1
-        #     Extract vertces of 2nd OD which are outsede 1st OD --> point_b2
-        #
-        counter1=0
-        counter2=0
-        tmp3=remove_doubling_dim4_in_perp_space(obj1_surf) # generating vertces of 1st OD
-        for i1 in range(len(tmp3)):
-            point_tmp=tmp3[i1]
-            counter=0
-            for i2 in range(len(obj2)):
-                tet=obj2[i2]
-                num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
-                if num1==0:
-                    counter+=1
-                    break
-                else:
-                    pass
-            if counter>0:
-                if counter1==0:
-                    tmp1a=point_tmp.reshape(18) # 18=6*3
-                else:
-                    tmp1a=np.append(tmp1a,point_tmp)
-                counter1+=1
+    point=p.reshape(int(len(p)/18),6,3) # 18=6*3
+    point1=remove_doubling_dim3_in_perp_space(point)
+    #print(' dividing into three PODs:')
+    #print('    Common   :     OD1 and     ODB')
+    #print('  UnCommon 1 :     OD1 and Not OD2')
+    #print('  UnCommon 2 : Not OD1 and     OD2')
+    #
+    # --------------------------
+    # (1) Extract vertces of 2nd OD which are insede 1st OD --> point_a1
+    #     Extract vertces of 2nd OD which are outsede 1st OD --> point_b2
+    #
+    tmp1a=np.zeros(0,dtype=int)
+    tmp1b=np.zeros(0,dtype=int)
+    counter1=0
+    counter2=0
+    tmp3=remove_doubling_dim4_in_perp_space(obj1_surf) # generating vertces of 1st OD
+    for i1 in range(len(tmp3)):
+        point_tmp=tmp3[i1]
+        counter=0
+        for i2 in range(len(obj2)):
+            tet=obj2[i2]
+            num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
+            if num1==0:
+                counter+=1
+                break
             else:
-                if counter2==0:
-                    tmp1b=point_tmp.reshape(18)
-                else:
-                    tmp1b=np.append(tmp1b,point_tmp)
-                counter2+=1
-        point_a1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
-        point_b2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
-        #
-        # (2) Extract vertces of 1st OD which are insede 2nd OD --> point_b1
-        #     Extract vertces of 1st OD which are outsede 2nd OD --> point_a2
-        #
-        counter1=0
-        counter2=0
-        tmp3=remove_doubling_dim4_in_perp_space(obj2_surf) # generating vertces of 2nd OD
-        for i1 in range(len(tmp3)):
-            point_tmp=tmp3[i1]
-            counter=0
-            for i2 in range(len(obj1)):
-                tet=obj1[i2]
-                num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
-                if num1==0:
-                    counter+=1
-                    break
-                else:
-                    pass
-            if counter>0:
-                if counter1==0:
-                    tmp1a=point_tmp.reshape(18) # 18=6*3
-                else:
-                    tmp1a=np.append(tmp1a,point_tmp)
-                counter1+=1
+                pass
+        if counter>0:
+            if counter1==0:
+                tmp1a=point_tmp.reshape(18) # 18=6*3
             else:
-                if counter2==0:
-                    tmp1b=point_tmp.reshape(18)
-                else:
-                    tmp1b=np.append(tmp1b,point_tmp)
-                counter2+=1
-        point_b1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
-        point_a2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
-        #
-        # (3) Sum point A, point B and Intersections --->>> common part
-        #
-        # common part = point1 + point_a1 + point_b1
-        tmp=np.append(point1,point_a1)
-        tmp=np.append(tmp,point_b1)
-        point_common=tmp.reshape(int(len(tmp)/18),6,3) # 18=6*3
-        point_common=remove_doubling_dim3_in_perp_space(point_common)
-        #
-        # point_a = point_a1 + point_a2 + point1
-        tmp=np.append(point1,point_a1)
-        tmp=np.append(tmp,point_a2)
-        point_a=tmp.reshape(int(len(tmp)/18),6,3)
-        point_a=remove_doubling_dim3_in_perp_space(point_a)
-        #
-        # point_b = point_b1 + point_b2 + point1
-        tmp=np.append(point1,point_b1)
-        tmp=np.append(tmp,point_b2)
-        point_b=tmp.reshape(int(len(tmp)/18),6,3)
-        point_b=remove_doubling_dim3_in_perp_space(point_b)
-        #
-        return [point_common,point_a,point_b]
+                tmp1a=np.append(tmp1a,point_tmp)
+            counter1+=1
+        else:
+            if counter2==0:
+                tmp1b=point_tmp.reshape(18)
+            else:
+                tmp1b=np.append(tmp1b,point_tmp)
+            counter2+=1
+    point_a1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
+    point_b2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
+    #
+    # (2) Extract vertces of 1st OD which are insede 2nd OD --> point_b1
+    #     Extract vertces of 1st OD which are outsede 2nd OD --> point_a2
+    #
+    tmp1a=np.zeros(0,dtype=int)
+    tmp1b=np.zeros(0,dtype=int)
+    counter1=0
+    counter2=0
+    tmp3=remove_doubling_dim4_in_perp_space(obj2_surf) # generating vertces of 2nd OD
+    for i1 in range(len(tmp3)):
+        point_tmp=tmp3[i1]
+        counter=0
+        for i2 in range(len(obj1)):
+            tet=obj1[i2]
+            num1=inside_outside_tetrahedron(point_tmp,tet[0],tet[1],tet[2],tet[3])
+            if num1==0:
+                counter+=1
+                break
+            else:
+                pass
+        if counter>0:
+            if counter1==0:
+                tmp1a=point_tmp.reshape(18) # 18=6*3
+            else:
+                tmp1a=np.append(tmp1a,point_tmp)
+            counter1+=1
+        else:
+            if counter2==0:
+                tmp1b=point_tmp.reshape(18)
+            else:
+                tmp1b=np.append(tmp1b,point_tmp)
+            counter2+=1
+    point_b1=tmp1a.reshape(int(len(tmp1a)/18),6,3)
+    point_a2=tmp1b.reshape(int(len(tmp1b)/18),6,3)
+    #
+    # (3) Sum point A, point B and Intersections --->>> common part
+    #
+    # common part = point1 + point_a1 + point_b1
+    tmp=np.append(point1,point_a1)
+    tmp=np.append(tmp,point_b1)
+    point_common=tmp.reshape(int(len(tmp)/18),6,3) # 18=6*3
+    point_common=remove_doubling_dim3_in_perp_space(point_common)
+    #
+    # point_a = point_a1 + point_a2 + point1
+    tmp=np.append(point1,point_a1)
+    tmp=np.append(tmp,point_a2)
+    point_a=tmp.reshape(int(len(tmp)/18),6,3)
+    point_a=remove_doubling_dim3_in_perp_space(point_a)
+    #
+    # point_b = point_b1 + point_b2 + point1
+    tmp=np.append(point1,point_b1)
+    tmp=np.append(tmp,point_b2)
+    point_b=tmp.reshape(int(len(tmp)/18),6,3)
+    point_b=remove_doubling_dim3_in_perp_space(point_b)
+    #
+    return [point_common,point_a,point_b]
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src_cython/ico/two_occupation_domains.py b/src_cython/ico/two_occupation_domains.py
index 1b250e0..dde7d06 100755
--- a/src_cython/ico/two_occupation_domains.py
+++ b/src_cython/ico/two_occupation_domains.py
@@ -166,6 +166,9 @@ def intersection_convex(obj1, obj2, verbose = 0):
 
     """
     point_common,point_a,point_b = intsct.intersection_two_obj_convex(obj1, obj2, verbose)
+    if len(point_common)<4:
+        print('    no intersection found.')
+        return np.array([[[[0]]]])
     common=intsct.tetrahedralization_points(point_common,verbose-1)
     if common.tolist()!=[[[[0]]]]:
         [v1,v2,v3]=utils.obj_volume_6d(common)
-- 
2.43.0


From 11f0aab6d3b316648c8d0028ab3494e63468ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:32 +0000
Subject: [PATCH 41/52] fix: dode utils12: merge collinear border segments that
 share their second end points

---
 src_cython/dode/utils12.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src_cython/dode/utils12.pyx b/src_cython/dode/utils12.pyx
index 13fc8ba..3fcfb11 100755
--- a/src_cython/dode/utils12.pyx
+++ b/src_cython/dode/utils12.pyx
@@ -63,8 +63,7 @@ cdef np.ndarray two_segment_into_one(np.ndarray[DTYPE_int_t, ndim=3] line_segmen
     else:
         pass
 
-    comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1]]
-    #comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1],[1,0,1,0]]
+    comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1],[1,0,1,0]]
     counter=0
 
     for i1 in range(len(comb)):
-- 
2.43.0


From 6790d58e0e76e026404b7dae5c3ae50abd039736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:21 +0000
Subject: [PATCH 42/52] fix: compiled ico coplanar_check: do not call points
 flat because the first three lie on a line

---
 src_cython/ico/math1.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src_cython/ico/math1.pyx b/src_cython/ico/math1.pyx
index c3d7dd3..3eb4b5a 100755
--- a/src_cython/ico/math1.pyx
+++ b/src_cython/ico/math1.pyx
@@ -108,6 +108,16 @@ cpdef int coplanar_check(np.ndarray[DTYPE_int_t, ndim=3] point):
             [b1,b2,b3]=sub(y3i[0],y3i[1],y3i[2],y0i[0],y0i[1],y0i[2])
             [c1,c2,c3]=sub(z3i[0],z3i[1],z3i[2],z0i[0],z0i[1],z0i[2])
             v4=np.array([[a1,a2,a3],[b1,b2,b3],[c1,c2,c3]])
+            if np.all(v3[:,:2]==0): # the points so far are on a line, they do not define a plane yet
+                if np.all(v1[:,:2]==0):
+                    v1=v2
+                else:
+                    pass
+                v2=v4
+                v3=outer_product(v1,v2)
+                continue
+            else:
+                pass
             [d1,d2,d3]=inner_product(v3,v4)
             if d1==0 and d2==0:
                 flag+=0
-- 
2.43.0


From 14348a192c311956920549b7b7504f869214bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 43/52] fix: last resort of the compiled subtraction looked up
 the wrong tetrahedron

object_subtraction_dev tested each corner of obj1 against obj2[i2] (index of the
corner) instead of obj2[i3], which reads past the end of obj2, and used counter3
uninitialised.
---
 src_cython/ico/mics.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_cython/ico/mics.pyx b/src_cython/ico/mics.pyx
index ca512dd..707adda 100755
--- a/src_cython/ico/mics.pyx
+++ b/src_cython/ico/mics.pyx
@@ -3330,7 +3330,7 @@ cpdef np.ndarray object_subtraction_dev(np.ndarray[DTYPE_int_t, ndim=4] obj1,\
         for i2 in range(4):
             counter1=0
             for i3 in range(len(obj2)):
-                flag=inside_outside_tetrahedron(obj1[i1][i2],obj2[i2][0],obj2[i2][1],obj2[i2][2],obj2[i2][3])
+                flag=inside_outside_tetrahedron(obj1[i1][i2],obj2[i3][0],obj2[i3][1],obj2[i3][2],obj2[i3][3])
                 if flag==0: # insede
                     counter1+=1
                     break
@@ -3409,6 +3409,7 @@ cpdef np.ndarray object_subtraction_dev(np.ndarray[DTYPE_int_t, ndim=4] obj1,\
             if counter2==4:
                 # geometric center, centroid of the tetrahedron, tmp2c
                 tmp2a=centroid(tmp4a[i2])
+                counter3=0
                 for i5 in range(len(obj2)):
                     flag1=inside_outside_tetrahedron(tmp2a,obj2[i5][0],obj2[i5][1],obj2[i5][2],obj2[i5][3])
                     if flag1==0: # inside
-- 
2.43.0


From 4cd76ac2e42c9b6541fb0013e65a012e1ce033a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 44/52] fix: simplification_obj_smart raised when no corner is
 common to all tetrahedra

It announces "fail, initial obj returned" for that case, and returned None when verbose.
---
 src_cython/ico/mics.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src_cython/ico/mics.pyx b/src_cython/ico/mics.pyx
index 707adda..aa78583 100755
--- a/src_cython/ico/mics.pyx
+++ b/src_cython/ico/mics.pyx
@@ -1210,6 +1210,10 @@ cpdef np.ndarray simplification_obj_smart(np.ndarray[DTYPE_int_t, ndim=4] obj,
     obj_surface=generator_surface_1(obj,verbose-1)
     
     vertex_common=extract_common_vertex(obj,verbose-1)
+    if vertex_common.tolist()==[[[0]]]:
+        if verbose>0:
+            print('         fail, initial obj returned')
+        return obj
     
     obj_surface_new=extract_surface_without_specific_vertx(obj_surface,vertex_common,verbose-1)
         
@@ -1236,7 +1240,7 @@ cpdef np.ndarray simplification_obj_smart(np.ndarray[DTYPE_int_t, ndim=4] obj,
                 print('         fail, initial obj returned')
             else:
                 pass
-                return obj
+            return obj
     else:
         if verbose>0:
             print('         fail, initial obj returned')
-- 
2.43.0


From 817b478f0b842b765056a85dff240ff4e45ae6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 45/52] fix: merging four tetrahedra returned an unassigned
 array, merging three needed merging two

merge_four_tetrahedra assigned its result only when verbose>1 and otherwise crashed;
simplification() used obj_min before assignment unless num2_of_shuffle>0.
---
 src_cython/ico/mics.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src_cython/ico/mics.pyx b/src_cython/ico/mics.pyx
index aa78583..934a841 100755
--- a/src_cython/ico/mics.pyx
+++ b/src_cython/ico/mics.pyx
@@ -2169,9 +2169,11 @@ cdef np.ndarray merge_four_tetrahedra(np.ndarray[DTYPE_int_t, ndim=3] tetrahedro
                 else:
                     tmp1a=np.append(tmp1a,tmp3h[i1])
         
+        if len(tmp1a)!=72:
+            return np.array([[[0]]])
+        tmp3h=tmp1a.reshape(4,6,3)
         if verbose>1:
-            tmp4b=tmp1a.reshape(4,6,3)
-            vol2=tetrahedron_volume_6d_numerical(tmp4b)
+            vol2=tetrahedron_volume_6d_numerical(tmp3h)
 
             tmp1a=np.append(tetrahedron_1,tetrahedron_2)
             tmp1a=np.append(tmp1a,tetrahedron_3)
@@ -2186,7 +2188,7 @@ cdef np.ndarray merge_four_tetrahedra(np.ndarray[DTYPE_int_t, ndim=3] tetrahedro
             print('         merged')
         else:
             pass
-        return tmp4b
+        return tmp3h
     else:
         return np.array([[[0]]])
 
@@ -2542,6 +2544,7 @@ cpdef np.ndarray simplification(np.ndarray[DTYPE_int_t, ndim=4] obj,
     # objに収納されている4面体をまとめる操作は、4面体の順番に大きく影響される.
     # 順番をランダムに変え、最も単純化できたものを採用する.
     
+    obj_min=obj
     if num2_of_shuffle>0:
         b=[]
         for i1 in range(num2_of_shuffle):
-- 
2.43.0


From 88b57342b1b9623668992083160f6efab558528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 46/52] fix: legacy partial simplification raised when every
 tetrahedron was selected

`obj_new.tolist!=[0]` compared the method; simpl_manual_2 divided to a float shape;
simple_rondom used random without importing it.
---
 src_cython/ico/occupation_domain.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src_cython/ico/occupation_domain.py b/src_cython/ico/occupation_domain.py
index 5f80e17..7a8149d 100755
--- a/src_cython/ico/occupation_domain.py
+++ b/src_cython/ico/occupation_domain.py
@@ -6,6 +6,7 @@
 
 import timeit
 import os
+import random
 import sys
 import numpy as np
 
@@ -1712,7 +1713,7 @@ def simple_special(obj, num, num_cycle, verbose_level = 0):
                 obj_new=np.append(obj_new,obj[i3])
         else:
             pass
-    if obj_new.tolist!=[0]:
+    if obj_new.tolist()!=[0]:
         obj_new=obj_new.reshape(int(len(obj_new)/72),4,6,3)
         #print len(obj_new)
     else:
@@ -1773,7 +1774,7 @@ def simple_special_1(obj, num, num_cycle, verbose_level = 0):
                 obj_new=np.append(obj_new,obj[i3])
         else:
             pass
-    if obj_new.tolist!=[0]:
+    if obj_new.tolist()!=[0]:
         obj_new=obj_new.reshape(int(len(obj_new)/72),4,6,3)
         #print len(obj_new)
     else:
@@ -1945,8 +1946,8 @@ def simpl_manual_2(obj, num, obj_partial, verbose_level = 0):
                 obj_new=np.append(obj_new,obj[i3])
         else:
             pass
-    if obj_new.tolist!=[0]:
-        obj_new=obj_new.reshape(len(obj_new)/72,4,6,3)
+    if obj_new.tolist()!=[0]:
+        obj_new=obj_new.reshape(len(obj_new)//72,4,6,3)
         #print len(obj_new)
     else:
         pass
@@ -1955,7 +1956,7 @@ def simpl_manual_2(obj, num, obj_partial, verbose_level = 0):
         obj_new=obj_partial.reshape(len(obj_partial)*72)
     else:
         obj_new=np.append(obj_new,obj_partial)
-    obj_new=obj_new.reshape(len(obj_new)/72,4,6,3)
+    obj_new=obj_new.reshape(len(obj_new)//72,4,6,3)
     m1,m2,m3=utils.obj_volume_6d(obj_new)
     if verbose_level>0:
         print(' volume of original obj  : %d %d %d (%10.8f)'%(n1,n2,n3,(n1+TAU*n2)/float(n3)))
-- 
2.43.0


From 36651271900e2386d7439d63b3b26396de46dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 47/52] fix: generator_xyz_dim3 wrote the coordinates of other
 points when duplicates are removed

---
 src_cython/ico/utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/ico/utils.pyx b/src_cython/ico/utils.pyx
index c046427..b6f72b3 100755
--- a/src_cython/ico/utils.pyx
+++ b/src_cython/ico/utils.pyx
@@ -1174,7 +1174,7 @@ cpdef int generator_xyz_dim3(np.ndarray[DTYPE_int_t, ndim=3] obj, str filename):
     f.write('%s\n'%(filename))
     for i1 in range(len(tmp3)):
         #_,_,_,a4,a5,a6=projection(obj[i1][0],obj[i1][1],obj[i1][2],obj[i1][3],obj[i1][4],obj[i1][5])
-        a4,a5,a6=projection3(obj[i1][0],obj[i1][1],obj[i1][2],obj[i1][3],obj[i1][4],obj[i1][5])
+        a4,a5,a6=projection3(tmp3[i1][0],tmp3[i1][1],tmp3[i1][2],tmp3[i1][3],tmp3[i1][4],tmp3[i1][5])
         f.write('Xx %8.6f %8.6f %8.6f # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
         ((a4[0]+a4[1]*TAU)/(a4[2]),(a5[0]+a5[1]*TAU)/(a5[2]),(a6[0]+a6[1]*TAU)/(a6[2]),\
         tmp3[i1][0][0],tmp3[i1][0][1],tmp3[i1][0][2],\
-- 
2.43.0


From 67dcc7d31ff5870040a4d4956950cf89ce5e942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 48/52] fix: generator_xyz_dim4_tetrahedron_select printed the
 vertices instead of writing them

---
 src_cython/ico/utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/ico/utils.pyx b/src_cython/ico/utils.pyx
index b6f72b3..1291684 100755
--- a/src_cython/ico/utils.pyx
+++ b/src_cython/ico/utils.pyx
@@ -1144,7 +1144,7 @@ cpdef int generator_xyz_dim4_tetrahedron_select(np.ndarray[DTYPE_int_t, ndim=4]
         #a1,a2,a3,a4,a5,a6=projection(obj[num][i2][0],obj[num][i2][1],obj[num][i2][2],obj[num][i2][3],obj[num][i2][4],obj[num][i2][5])
         #_,_,_,a4,a5,a6=projection(obj[num][i2][0],obj[num][i2][1],obj[num][i2][2],obj[num][i2][3],obj[num][i2][4],obj[num][i2][5])
         a4,a5,a6=projection3(obj[num][i2][0],obj[num][i2][1],obj[num][i2][2],obj[num][i2][3],obj[num][i2][4],obj[num][i2][5])
-        print('Xx %8.6f %8.6f %8.6f # %3d-the tetrahedron %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
+        f.write('Xx %8.6f %8.6f %8.6f # %3d-the tetrahedron %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
         ((a4[0]+a4[1]*TAU)/(a4[2]),\
         (a5[0]+a5[1]*TAU)/(a5[2]),\
         (a6[0]+a6[1]*TAU)/(a6[2]),\
-- 
2.43.0


From 28c5bb9a88a8131a13fcbf86fa3600ecbe2f2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:03 +0000
Subject: [PATCH 49/52] fix: legacy merging and simplification accepted other
 regions for very small objects (absolute volume tolerance)

---
 src_cython/ico/mics.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_cython/ico/mics.pyx b/src_cython/ico/mics.pyx
index 934a841..46c7dbf 100755
--- a/src_cython/ico/mics.pyx
+++ b/src_cython/ico/mics.pyx
@@ -1593,7 +1593,7 @@ cpdef np.ndarray simplification_obj_edges_1(np.ndarray[DTYPE_int_t, ndim=4] obj,
             print('         succdeded')
             return tmp4a
         else:
-            if abs(vol1-vol2)<TOL:
+            if abs(vol1-vol2)<TOL*vol1:
                 print('         succdeded')
                 return tmp4a
             else: 
@@ -1907,7 +1907,7 @@ cdef np.ndarray merge_4_tetrahedra_in_obj(np.ndarray[DTYPE_int_t, ndim=4] obj,in
             pass
     
         #if v1==w1 and v2==w2 and v3==w3:
-        if abs(vol1-vol2)<TOL:
+        if abs(vol1-vol2)<TOL*vol1:
             return tmp4a
         else:
             if verbose>0:
@@ -2293,7 +2293,7 @@ cdef np.ndarray merge_3_tetrahedra_in_obj(np.ndarray[DTYPE_int_t, ndim=4] obj,in
             pass
     
         #if v1==w1 and v2==w2 and v3==w3:
-        if abs(vol1-vol2)<TOL:
+        if abs(vol1-vol2)<TOL*vol1:
             return tmp4a
         else:
             if verbose>0:
@@ -2403,7 +2403,7 @@ cdef np.ndarray merge_2_tetrahedra_in_obj(np.ndarray[DTYPE_int_t, ndim=4] obj,in
             pass
     
         #if v1==w1 and v2==w2 and v3==w3:
-        if abs(vol1-vol2)<TOL:
+        if abs(vol1-vol2)<TOL*vol1:
             return tmp4a
         else:
             if verbose>0:
-- 
2.43.0


From 0502c1b9abf9949112fa145fba805136ad8fa3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:39 +0000
Subject: [PATCH 50/52] fix: legacy dode intersection lost or invented
 crossings for small objects (absolute tolerances)

---
 src_cython/dode/numericalc12.pyx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src_cython/dode/numericalc12.pyx b/src_cython/dode/numericalc12.pyx
index 733e084..036ca7e 100755
--- a/src_cython/dode/numericalc12.pyx
+++ b/src_cython/dode/numericalc12.pyx
@@ -55,7 +55,7 @@ cpdef int point_on_segment(np.ndarray[DTYPE_int_t, ndim=2] point, np.ndarray[DTY
     vecBA=np.array([x2-x1,y2-y1,z2-z1])
     lPA=length_numerical(vecPA)
     lBA=length_numerical(vecBA)
-    if lBA>0.0 and abs(inner_product_numerical(vecPA,vecBA)-lPA*lBA)<EPS:
+    if lBA>0.0 and abs(inner_product_numerical(vecPA,vecBA)-lPA*lBA)<EPS*lBA*lBA:
         s=lPA/lBA
         if s>=0.0 and s<=1.0:
             return 0
@@ -338,8 +338,7 @@ cdef int inside_outside_triangle_numerical(np.ndarray[DTYPE_double_t, ndim=1] po
         print('             total1: %8.6f'%(area1+area2+area3))
     else:
         pass
-    #if abs(area0-area1-area2-area3)<area0*EPS:
-    if abs(area0-area1-area2-area3)<EPS:
+    if abs(area0-area1-area2-area3)<area0*EPS:
         return 0 # inside
     else:
         return 1 # outside
@@ -383,8 +382,7 @@ cpdef int inside_outside_triangle(np.ndarray[DTYPE_int_t, ndim=2] point,\
         print('             total1: %8.6f'%(area1+area2+area3))
     else:
         pass
-    if abs(area0-area1-area2-area3)<EPS:
-    #if abs(area0-area1-area2-area3)<EPS*area0:
+    if abs(area0-area1-area2-area3)<EPS*area0:
         return 0 # inside
     else:
         return 1 # outside
@@ -620,7 +618,7 @@ cpdef int check_intersection_two_segment_numerical(np.ndarray[DTYPE_int_t, ndim=
     else:
         pass
         
-    if abs(t2)<EPS:
+    if abs(t2)<=EPS*dot_matrix(vecAB,vecAB)*dot_matrix(vecCD,vecCD):
         if verbose>1:
             print('          no intersection')
         else:
@@ -643,7 +641,7 @@ cpdef int check_intersection_two_segment_numerical(np.ndarray[DTYPE_int_t, ndim=
                 print('          ddy = %8.6f'%(ddy))
                 print('          ddz = %8.6f'%(ddz))
                 
-            if ddx**2+ddy**2+ddz**2<EPS:
+            if ddx**2+ddy**2+ddz**2<EPS*(dot_matrix(vecAB,vecAB)+dot_matrix(vecCD,vecCD)):
                 if verbose>1:
                     print('          intersection')
                 else:
-- 
2.43.0


From 1068bda893b02d8e8408382ae19d9dbe5c9e317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:39 +0000
Subject: [PATCH 51/52] fix: legacy ico intersection lost crossings for small
 objects (absolute tolerance)

---
 src_cython/ico/numericalc.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_cython/ico/numericalc.pyx b/src_cython/ico/numericalc.pyx
index d06524b..b9051b7 100755
--- a/src_cython/ico/numericalc.pyx
+++ b/src_cython/ico/numericalc.pyx
@@ -71,7 +71,7 @@ cpdef int point_on_segment(np.ndarray[DTYPE_int_t, ndim=2] point, np.ndarray[DTY
     vecBA=np.array([x2-x1,y2-y1,z2-z1])
     lPA=length_numerical(vecPA)
     lBA=length_numerical(vecBA)
-    if lBA>0.0 and abs(inner_product_numerical(vecPA,vecBA)-lPA*lBA)<EPS:
+    if lBA>0.0 and abs(inner_product_numerical(vecPA,vecBA)-lPA*lBA)<EPS*lBA*lBA:
         s=lPA/lBA
         if s>=0.0 and s<=1.0:
             return 0
@@ -425,7 +425,7 @@ cpdef int check_intersection_segment_surface_numerical(np.ndarray[DTYPE_int_t, n
     vecCA=np.array([-b1x,-b1y,-b1z]) # CA
 
     bunbo=det_matrix(vecCD,vecCE,vecBA)
-    if abs(bunbo)<EPS:
+    if abs(bunbo)<=EPS*np.sqrt(np.dot(vecCD,vecCD)*np.dot(vecCE,vecCE)*np.dot(vecBA,vecBA)):
         return 1
     else:
         u=det_matrix(vecCA,vecCE,vecBA)/bunbo
-- 
2.43.0


From b74860218cb79ff43e1e63d6bec07503ded154c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:48 +0000
Subject: [PATCH 52/52] fix: simplification of a common part raised when the
 pieces do not match face to face

---
 src/pyqcstrc/ico2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 9a704b0..05aa4dc 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -663,7 +663,7 @@ def gen_border_edges_of_coplanar_triangles(coplanar_triangles: NDArray[np.int64]
             lst.append(edge1)
         else:
             pass
-    return np.array(lst,dtype=np.int64)
+    return np.array(lst,dtype=np.int64).reshape(len(lst),2,6,3)
 
 #----------------------------
 # Equivalence check
-- 
2.43.0

