From 9fcf81712109a3c6d0d6014c34e18d3d263c7466 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 1/7] fix: solve_index: an index of a zero-dimensional array
 exists only for position 0

Assigning a single element of a COO, FlatCOO, CSR or DM array selected every
stored element, because solve_index(pos, (), ()) returned () for every pos.
---
 gcs/slice_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..518785d 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -340,7 +340,7 @@ def solve_index(pos, shape, strides, data=None):
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
     assert not shape or s is not None
-    if pos % d:
+    if pos % d or (pos and not z0):
         return  # no solution exists
 
     k = pos // d
-- 
2.43.0


From 5dce751ba2c537794530c0e145a60f962151be61 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 2/7] fix: DM.__getitem__: take the offset of an already sliced
 DM into account

When indexing fixed all dimensions of a reduced dimension, the offset left by
an earlier slicing was ignored: DM.fromobject([[1], [2]])[1:][0] gave [1].
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From 2182ad20e4ac399325a945104164e2c8b5747020 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 3/7] fix: indexing of arrays with zero-length dimensions

Slicing such an array raised ZeroDivisionError from 'start % size' and looking
for array indices failed because of zero strides.
---
 gcs/slice_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 518785d..835d2c8 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size) if size else 0
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size) if size else 0
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
@@ -206,6 +206,10 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        # an empty array has no indices to be found, strides can be zero
+        return 1, (0,) * len(a), (), (), (), shape
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
-- 
2.43.0


From 65018053c1fdd30b0c0a5625b0e44919c06523ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 4/7] fix: slicing of Strided arrays that have no elements

Strided.get_slice tried to take a slice of an empty Buffer, which is an
IndexError. For instance, an array with no specified elements could not be
converted to CSR.
---
 gcs/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..5b330fc 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -649,6 +649,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
+        if 0 in shape:
+            # an empty slice does not refer to any data
+            return Strided(shape, strides, self.data)
         return Strided(shape, strides, self.data[offset:])
 
 
-- 
2.43.0


From 339fdf893086877d81de61ae676fa0a382d43594 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 5/7] fix: Storage.equal: unspecified elements do not depend on
 the storage format

Dense formats list unspecified elements and sparse ones do not, so the same
array stored in two formats was reported as different. Compare shapes and
specified elements.
---
 gcs/storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5b330fc..6e09df7 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -333,19 +333,21 @@ class Storage:
         """
         d1, d2 = {}, {}
         for index, value in self.elements():
-            d1[index] = value
+            if value != self.unspecified:
+                d1[index] = value
         if not isinstance(other, Storage):
             if isinstance(self, Buffer):
                 other = type(self).fromobject(other, unspecified=self.unspecified)
             else:
                 other = Strided.fromobject(other, unspecified=self.unspecified)
         for index, value in other.elements():
-            d2[index] = value
+            if value != other.unspecified:
+                d2[index] = value
         if d1 != d2:
             print()
             print(f'{d1=}')
             print(f'{d2=}')
-        return d1 == d2
+        return self.shape == other.shape and d1 == d2
 
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
-- 
2.43.0


From 725eeeac0c04493a9a915eab0210365bf02e5a54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 6/7] fix: DM.__getitem__: share the storage when no reduced
 dimension is fixed

The data of sparse storages was rebuilt, so that the slice did not see
later changes of the original array (and vice versa), contrary to the
comment in the code and to strided storages.
---
 gcs/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 6e09df7..a06fc4e 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1127,5 +1127,8 @@ class DM(Storage):
         # storage data when the sliced array has the same
         # dimensionality (holds also for COO and CSR use cases) or
         # when the data storage uses strided storage format.
-        data = self.data[dindex] if dindex else self.data
+        if any(i is not None for i in dindex):
+            data = self.data[dindex]
+        else:
+            data = self.data
         return DM(gshape, rdimensions, rstrides, roffset, data)
-- 
2.43.0


From 18934393dffe255943038914a351cc4e5d383824 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 7/7] fix: compare all elements of strided arrays in the
 equality test

The data window of a slice with a negative step starts at the first
element of the slice, the other elements are located before it. These
were not compared, so different arrays could be reported as equal.
---
 gcs/storage.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index a06fc4e..72f1fc4 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -623,6 +623,15 @@ class Strided(Storage):
     def _get_object_data(self):
         return self.shape, self.strides, self.data
 
+    def __eq__(self, other):
+        # Elements of a slice with a negative step are located in
+        # front of the data window.
+        if isinstance(other, type(self)):
+            return self is other or (
+                self._get_object_data() == other._get_object_data()
+                and list(self.elements()) == list(other.elements()))
+        return NotImplemented
+
     def copy(self, unspecified=DEFAULT):
         """Return a row-wise contiguous copy.
         """
-- 
2.43.0

