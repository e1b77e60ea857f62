From fc34042ed6ea7b3620ecf51133588c97842d51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 01/52] fix: Transform.rotate_about must drop the cached
 inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From 79002f9bf8a49ad76dae3d81ba34f6783cf70117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 02/52] fix: transform_pts works for transformers that return
 (x, y) pairs, like VectorField

---
 x7/geom/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..4f3bc6b 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -77,7 +77,7 @@ class Transformer(ABC):
             Transform numpy points to numpy points.
 
             :param np_pts:
-            :returns: either NumpyArray or [(x, y, 1), ...]
+            :returns: either NumpyArray or [(x, y, 1), ...] or [(x, y), ...]
         """
         ...     # pragma: no cover
 
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for np_pt in np_pts for v in (np_pt[0], np_pt[1])]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(np_pt[0], np_pt[1]) for np_pt in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(np_pt[0], np_pt[1]) for np_pt in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From b7e1977cb5b160e5c93d9b24eee4b609e30014de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 03/52] fix: VectorRelative.p used attributes that a relative
 vector does not have

---
 x7/geom/geom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..6198e5b 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -257,6 +257,10 @@ class VectorRelative(Vector):
     def setxy(self, x, y):
         raise NotImplementedError
 
+    @property
+    def p(self):
+        return Point(*self.xy())
+
     def set(self, v: 'Vector') -> None:
         raise NotImplementedError
 
-- 
2.43.0


From bfae9ff999ae605ff1e6fd3463a75d9f61b9fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 04/52] fix: ElemCurve.add_one must not split the missing
 closing segment of an open curve

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..a3a19d1 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -493,6 +493,8 @@ class ElemCurve(Elem):
         orig_len = len(self.control_points)
         cps = self.control_points
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        if not self.closed:
+            dists.pop()     # An open curve has no segment from last to first
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
-- 
2.43.0


From d66da5d28a7e71d46b95b33f8eee00fe2f4c6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 05/52] fix: offset_pt must keep the direction of a limited
 offset

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a3a19d1..7e3a6a8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -433,7 +433,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From 294673c04afbdd777b23bcebe3528e441d32cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 06/52] fix: copies of elements must not share the transform of
 the original

---
 x7/geom/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 7e3a6a8..e42f7ee 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -582,7 +582,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -748,7 +748,8 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(
+            self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From 4d4e170d930289fe53f842a78c5f62f89657cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 07/52] fix: ElemWithHoles.restore must restore the holes and
 not share the transform

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e42f7ee..b34e5ff 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1115,9 +1115,9 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From bd9f20dac3f22362dcaa003b9a3d5fe87eb495b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 08/52] fix: ElemWithHoles.bbox_int ignored the outside
 transform and failed without holes

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b34e5ff..a1073ff 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1094,13 +1094,13 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
         if debug:
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-            assert bbox_outside.contains(bbox_inside)
+            assert bbox_inside.is_none or bbox_outside.contains(bbox_inside)
         return bbox_outside
 
     def bbox_int_update(self, bbox: BBox, context=None):
-- 
2.43.0


From 8b22dc454bbf471178833a0d0891b63cc15828f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 09/52] fix: ElemWithHoles.paths listed the edges of a
 multi-path hole several times

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a1073ff..9ba4313 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1068,8 +1068,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From 77d10dd13085cebeafc31be03f683b432b7ad40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 10/52] fix: names listed for the parts of an ElemWithHoles can
 be looked up

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 9ba4313..48289b0 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -979,7 +979,7 @@ class Group(Elem):
             raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
         item = self.elems[head]
         if tail:
-            if isinstance(item, Group):
+            if isinstance(item, (Group, ElemWithHoles)):
                 return item.lookup(tail)
             else:
                 raise ValueError('no sub-group found for %r' % tail)
@@ -1150,7 +1150,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From 19c3bf518870bc602de737cbffe28ff37b9f13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 11/52] fix: iter_elems pairs every element with its own
 transform, not one shared live transform

---
 x7/geom/model.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 48289b0..3462783 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -952,14 +952,10 @@ class Group(Elem):
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
-        matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
+        matrix = matrix.copy() if matrix else Transform()
+        matrix.compose(self.xform)
         for elem in self.elems.values():
             yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
@@ -1148,12 +1144,12 @@ class ElemWithHoles(Elem):
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
-        matrix = matrix or Transform()
-        with matrix.push().compose(self.xform):
-            base = '%s.%s' % (root, self.name) if root else self.name
-            yield from self.outside.iter_elems(base + '.outside', matrix)
-            for elem in self.inside:
-                yield from elem.iter_elems(base + '.inside', matrix)
+        matrix = matrix.copy() if matrix else Transform()
+        matrix.compose(self.xform)
+        base = '%s.%s' % (root, self.name) if root else self.name
+        yield from self.outside.iter_elems(base + '.outside', matrix)
+        for elem in self.inside:
+            yield from elem.iter_elems(base + '.inside', matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From f0bab5c6f8731f080b3b4f26c25a4d4c6169311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 12/52] fix: iter_elems_transformed leaves the given transform
 alone while it is suspended

---
 x7/geom/model.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3462783..7dd2311 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -959,15 +959,13 @@ class Group(Elem):
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-        matrix = matrix or Transform()
-        with matrix.push():
-            if self.xform:
-                matrix.compose(self.xform)
-            root = root + '.' + self.name if root else self.name
-            for elem in self.elems.values():
-                xf = elem.transform(matrix)
-                xf.name = root + '.' + xf.name
-                yield xf
+        matrix = matrix.copy() if matrix else Transform()
+        matrix.compose(self.xform)
+        root = root + '.' + self.name if root else self.name
+        for elem in self.elems.values():
+            xf = elem.transform(matrix)
+            xf.name = root + '.' + xf.name
+            yield xf
 
     def lookup(self, tag: str) -> Elem:
         head, sep, tail = tag.partition('.')
@@ -1153,16 +1151,16 @@ class ElemWithHoles(Elem):
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-        matrix = matrix or Transform()
-        with matrix.push().compose(self.xform):
-            base = '%s.%s' % (root, self.name) if root else self.name
-            xf = self.outside.transform(matrix)
-            xf.name = base+'.outside.'+xf.name
+        matrix = matrix.copy() if matrix else Transform()
+        matrix.compose(self.xform)
+        base = '%s.%s' % (root, self.name) if root else self.name
+        xf = self.outside.transform(matrix)
+        xf.name = base+'.outside.'+xf.name
+        yield xf
+        for elem in self.inside:
+            xf = elem.transform(matrix)
+            xf.name = base+'.inside.'+xf.name
             yield xf
-            for elem in self.inside:
-                xf = elem.transform(matrix)
-                xf.name = base+'.inside.'+xf.name
-                yield xf
 
     def lookup(self, tag: str) -> Elem:
         head, sep, tail = tag.partition('.')
-- 
2.43.0


From 49865a1ea3e9e1e104b457392f5387b04b5132c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 13/52] fix: Group.copy, restore and transform keep closed, and
 restore does not share the transform

---
 x7/geom/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 7dd2311..0ccdf64 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -897,19 +897,21 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, closed=self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
+        self.closed = other.closed
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(
+            self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), closed=self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From dcb3ba95a4d4898589491bdb8ef4c0e942ea0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 14/52] fix: Group.copy, restore and transform copy the
 elements as documented

---
 x7/geom/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 0ccdf64..5a942d3 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -895,7 +895,7 @@ class Group(Elem):
         raise ValueError("Can't bbox_int_update a Group yet")
 
     def copy(self):
-        elems = dict(self.elems)
+        elems = {name: elem.copy() for name, elem in self.elems.items()}
         points = dict(self.points)
         return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, closed=self.closed)
 
@@ -905,13 +905,14 @@ class Group(Elem):
         self.closed = other.closed
         self.hidden = other.hidden
         self.xform = other.xform.copy()
-        self.elems = dict(other.elems)
+        self.elems = {name: elem.copy() for name, elem in other.elems.items()}
         self.points = dict(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
+        elems = {name: elem.copy() for name, elem in self.elems.items()}
         return Group(
-            self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), closed=self.closed)
+            self.name, self.penbrush, self.hidden, xform, elems, dict(self.points), closed=self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From 52d3110b89eaac402d9ac78fb492f2f83d06d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 15/52] fix: copy() and fixed() of a named Point keep the name,
 so copies compare equal

---
 x7/geom/geom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6198e5b..ddcab1c 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -465,7 +465,11 @@ class Point(BasePoint):
 
     def copy(self) -> 'Point':
         """Return a copy of this point"""
-        return Point(self._x, self._y)
+        return Point(self._x, self._y, self.name)
+
+    def fixed(self) -> 'Point':
+        """Return a copy of this point, as it is already fixed"""
+        return self.copy()
 
     def restore(self, other: BasePoint):
         self._x, self._y = other.xy()
-- 
2.43.0


From 410fb864c1e8b832ca31e1ecea2ce928e8eeaee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 16/52] fix: Group.copy, restore and transform copy the named
 points

---
 x7/geom/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 5a942d3..dc79775 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -5,6 +5,7 @@ Code to describe models for animations
 import sys
 import math
 from abc import ABC, abstractmethod
+from copy import deepcopy
 # noinspection PyPackageRequirements
 from PIL import Image, ImagePath
 from .drawing import DrawingContext
@@ -896,7 +897,7 @@ class Group(Elem):
 
     def copy(self):
         elems = {name: elem.copy() for name, elem in self.elems.items()}
-        points = dict(self.points)
+        points = deepcopy(self.points)
         return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, closed=self.closed)
 
     def restore(self, other: 'Group'):
@@ -906,13 +907,13 @@ class Group(Elem):
         self.hidden = other.hidden
         self.xform = other.xform.copy()
         self.elems = {name: elem.copy() for name, elem in other.elems.items()}
-        self.points = dict(other.points)
+        self.points = deepcopy(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
         elems = {name: elem.copy() for name, elem in self.elems.items()}
         return Group(
-            self.name, self.penbrush, self.hidden, xform, elems, dict(self.points), closed=self.closed)
+            self.name, self.penbrush, self.hidden, xform, elems, deepcopy(self.points), closed=self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From c52b3ba8bc80273efd4b098e4d85d599baa26027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 17/52] fix: ElemWithHoles.replace replaces the matching parts
 instead of raising

---
 x7/geom/model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index dc79775..c8282bb 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1180,8 +1180,21 @@ class ElemWithHoles(Elem):
 
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
-        unused(elem, replacement)
-        raise NotImplementedError
+        count = 0
+        if self.outside == elem:
+            replacement.penbrush = self.penbrush
+            self.outside = replacement
+            count += 1
+        elif hasattr(self.outside, 'replace'):
+            count += self.outside.replace(elem, replacement)
+        for idx, e in enumerate(self.inside):
+            if e == elem:
+                replacement.penbrush = self.penbrush
+                self.inside[idx] = replacement
+                count += 1
+            elif hasattr(e, 'replace'):
+                count += e.replace(elem, replacement)
+        return count
 
 
 class GroupBuilder(object):
-- 
2.43.0


From aef945b764b21a962f8fd20eccc73cd8d187a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 18/52] fix: Group.replace keeps the drawing order, and a
 refused replacement changes nothing

---
 x7/geom/model.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index c8282bb..431c187 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -987,20 +987,32 @@ class Group(Elem):
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        self.check_replace(elem, replacement)
         count = 0
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
-                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
-                        replacement.name, self.name))
-                self.add(replacement.name, replacement)
+                # Keep the place in the drawing order
+                elems = [(replacement.name, replacement) if n == name else (n, o) for n, o in self.elems.items()]
+                self.elems.clear()
+                self.elems.update(elems)
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
         return count
 
+    def check_replace(self, elem: Elem, replacement):
+        """Refuse .replace(elem, replacement) before anything is changed if there is a name conflict"""
+        for name, e in self.elems.items():
+            if e == elem:
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+                if replacement.name != name and replacement.name in self.elems:
+                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
+                        replacement.name, self.name))
+            elif hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+
     def add_pt(self, name, pt):
         assert name not in self.points
         assert '.' not in name
@@ -1196,6 +1208,12 @@ class ElemWithHoles(Elem):
                 count += e.replace(elem, replacement)
         return count
 
+    def check_replace(self, elem: Elem, replacement):
+        """Refuse .replace(elem, replacement) before anything is changed if there is a name conflict"""
+        for e in [self.outside] + self.inside:
+            if e != elem and hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+
 
 class GroupBuilder(object):
     """Convenience function to help when building shapes in code"""
-- 
2.43.0


From 00f7193d9943eaa505fcceb5d13ffac950e39e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 19/52] fix: the dump of an ElemWithHoles can be evaluated
 again

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 431c187..e5e4c5d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1148,12 +1148,15 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, inside=list)
         with context:
             for elem in self.inside:
                 elem.dump(context)
                 context.add_comma()
-        context.append('])')
+        context.append('], outside=(')
+        with context:
+            self.outside.dump(context)
+        context.append('))')
         return context
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
-- 
2.43.0


From e862837d297b09b728ae59afda07daa7f682d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 20/52] fix: Group.dump keeps hidden, points and the order of
 the elements

---
 x7/geom/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e5e4c5d..376f345 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -946,9 +946,14 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
-            for name, elem in sorted(self.elems.items()):
+            for elem in self.elems.values():
                 elem.dump(context)
                 context.add_comma()
         context.append('])')
-- 
2.43.0


From d3579b390483a980b8598a2e3f526ebd159e4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 21/52] fix: DumpContext.output may be called several times

---
 x7/geom/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 376f345..c185c22 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -63,8 +63,7 @@ class DumpContext(object):
         for var_value, var_name in sorted(self.vars.items(), key=lambda it: (it[1], it[0])):
             var_lines.append('%s = %s' % (var_name, var_value))
         var_lines.append('')
-        self.lines[0] = 'model = ' + self.lines[0]
-        return '\n'.join(var_lines + self.lines)
+        return '\n'.join(var_lines + ['model = ' + self.lines[0]] + self.lines[1:])
 
     def prefix(self):
         return '    ' * self.depth
-- 
2.43.0


From 0fa630ae4267f9e7fe84dab1bdb547b14e6f2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 22/52] fix: GroupBuilder.hide hides the group

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index c185c22..e02167d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1345,6 +1345,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From 42406cd58ad3993f6143e29107963dbea51c433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 23/52] fix: ElemRectangleRounded.transform with different x
 and y scales keeps the shape of the corners

---
 x7/geom/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e02167d..1bc0ac1 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -760,8 +760,13 @@ class ElemRectangleRounded(ElemP1P2):
 
     def transform(self, matrix: Transform):
         """Return a copy of this shape transformed by matrix.  .transform(identity) is like .copy()"""
-        rotate, (p1, p2, p1r) = self.transform_pts(matrix, [self.p1, self.p2, self.p1+Vector(self.radius, 0)])
-        radius = (p1r-p1).length()
+        rotate, (p1, p2, p1x, p1y) = self.transform_pts(
+            matrix, [self.p1, self.p2, self.p1+Vector(self.radius, 0), self.p1+Vector(0, self.radius)])
+        radius = (p1x-p1).length()
+        if not math.isclose(radius, (p1y-p1).length(), rel_tol=1e-9):
+            # Different scales for x and y would need elliptic corners, so leave all of it to the transform
+            rotate = matrix.copy().compose(self.xform)
+            p1, p2, radius = self.p1, self.p2, self.radius
         return ElemRectangleRounded(self.name, self.penbrush, xform=rotate, p1=p1, p2=p2, radius=radius)
 
     def make_control_points(self) -> List[ControlPoint]:
-- 
2.43.0


From a4211a41b1d732c81089c65929fd7a13745252a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 24/52] fix: the offset of periodic timing functions is an
 offset, not a factor of t

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..f556ac4 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From 40a6921cd5e31c4ade59df700b177ee3323587ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 25/52] fix: Builder.max_bbox must skip empty frames

---
 x7/geom/anim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f556ac4..a233090 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -465,9 +465,10 @@ class Builder(object):
 
     def max_bbox(self, images=None):
         images = images or self.images
-        bb = images[0].getbbox()
-        for im in images[1:]:
-            bb = bbox_max(bb, im.getbbox())
+        bb = None
+        for im in images:
+            im_bb = im.getbbox()    # None if image is empty
+            bb = bbox_max(bb, im_bb) if bb and im_bb else bb or im_bb
         print('BBox max: %s %s over %d images' % (images[0].size, bb, len(images)))
         return bb
 
-- 
2.43.0


From ba1260cfddb36d836da3377b6e6f0a9d08bee1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 26/52] fix: MorphMultiStep must not rotate the control points
 of open curves

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index a233090..1b618e5 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -357,7 +357,7 @@ class MorphMultiStep(Animation):
                 c.add_one()
             # TODO-make sure points are CCW
             # Rotate the so that lower left is 0
-            rotate = force
+            rotate = force and c.closed
             if rotate:
                 bbox = c.bbox()
                 dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
-- 
2.43.0


From b783ef182f2e449667b93aa4f711115de8d84d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 27/52] fix: MorphMultiStep works on copies of the targets

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 1b618e5..f41413f 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -348,7 +348,7 @@ class MorphMultiStep(Animation):
         super().__init__(Point(0, 0))
         self.model = model
         self.orig = source
-        all_steps, all_curves = zip(*([(0.0, source.copy())] + targets))
+        all_steps, all_curves = zip(*([(0.0, source.copy())] + [(t, target.copy()) for t, target in targets]))
         self.all_curves: List[ElemCurve] = all_curves
         self.all_steps: List[float] = all_steps
         max_len = max(len(c.control_points) for c in self.all_curves)
-- 
2.43.0


From be6dadf2d661b996964efb110c4ec156afea092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 28/52] fix: SimpleAnimation keeps one image per step, not two

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From 990b1b230c9474008e55c69bf9a62357b327dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 29/52] fix: SimpleAnimation maps the drawing box onto the
 image also if it is not centred about y=0

---
 x7/geom/anim_simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..646030f 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -67,8 +67,8 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf = Transform().scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf.compose_outer(Transform.canvas_fit(self.image_size.xy()))
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From 5ad9cebcbd4257f65282ce63b022f6f63befeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 30/52] fix: normalizing or smoothing a zero VectorField gives
 zero, not NaN

---
 x7/geom/vec_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 5fece85..310d408 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -102,6 +102,8 @@ class VectorField(Transformer):
     def normalized(self) -> 'VectorField':
         mags = np.sqrt(np.add(np.multiply(self.vx, self.vx), np.multiply(self.vy, self.vy)))
         max_mag = np.amax(mags)
+        if max_mag == 0:
+            return self.copy()      # Nothing to normalize
         vx = np.multiply(self.vx, 1 / max_mag)
         vy = np.multiply(self.vy, 1 / max_mag)
         return VectorField(self.mesh, vx, vy)
-- 
2.43.0


From 06e1102ae57dfdefa0a67f2cbef8f74264ec2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 31/52] fix: VectorField must not interpolate in arrays that
 have been replaced

---
 x7/geom/vec_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 310d408..01c239f 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -48,6 +48,7 @@ class VectorField(Transformer):
         self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
         self.interp_x = None
         self.interp_y = None
+        self.interp_for = None
 
     def __eq__(self, other):
         return (
@@ -64,11 +65,12 @@ class VectorField(Transformer):
 
     def interp_coords(self, pts: NumpyArray):
         """Lookup/interpolate at all pts.  Return (vx-list, vy-list)"""
-        if not self.interp_x:
+        if not self.interp_x or self.interp_for[0] is not self.vx or self.interp_for[1] is not self.vy:
             coords = (self.mesh.coord_x, self.mesh.coord_y)
             rgi = scipy.interpolate.RegularGridInterpolator
             self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
             self.interp_y = rgi(coords, self.vy, method='linear', bounds_error=False, fill_value=None)
+            self.interp_for = (self.vx, self.vy)
         return self.interp_x(pts), self.interp_y(pts)
 
     def lookup(self, x, y):
-- 
2.43.0


From 9ae13cb3994a2c275310e940756f6fe7f5cc3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 32/52] fix: approximate comparison of points and vectors must
 honour places and delta

---
 x7/geom/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..6bcf3c4 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -117,8 +117,8 @@ class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
         super().__init__(test_case, self.KLASS)
 
     def almost_equal(self, first, second, places=None, delta=None) -> Union[bool, str]:
-        almost_x = self.test_case.almostEqualFloat(first.x, second.x)
-        almost_y = self.test_case.almostEqualFloat(first.y, second.y)
+        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
+        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
         msg = []
         if almost_x is not True:
             msg.append('x: ' + almost_x)
-- 
2.43.0


From 3668b9999756f1c6f587ae93dd414d1586cebcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 33/52] fix: approximate comparison of control points must
 honour delta

---
 x7/geom/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 6bcf3c4..673c352 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -99,7 +99,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         vals_f = [getattr(first, attr) for attr in self.ATTRS]
         vals_s = [getattr(second, attr) for attr in self.ATTRS]
         # TODO-not quite right.  It should understand what was different by attr name
-        return self.test_case.almostEqual(vals_f, vals_s, places, delta)
+        return self.test_case.almostEqual(vals_f, vals_s, places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-- 
2.43.0


From 7bd18a31f4d2a0f348db0aee839c350bc984bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 34/52] fix: explaining a mismatch of control points must not
 fail on the kind

---
 x7/geom/testing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 673c352..b80541a 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -102,11 +102,8 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         return self.test_case.almostEqual(vals_f, vals_s, places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
-        vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-        vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
-        if all(n.close(o) for n, o in zip(vals_n, vals_o)):
-            return True, None
-        return False, None
+        close: bool = new_data.close(old_data)
+        return close, None
 
 
 class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
-- 
2.43.0


From d6eef8299338b0e835bee863d47c89d361bb19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 35/52] fix: BBox.touches_pt must include the corners of the
 border

---
 x7/geom/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index ddcab1c..dbb6d93 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -775,8 +775,8 @@ class BBox(object):
         if self.xl is None:
             return False
         x, y = point.xy()
-        return ((x == self.xl or x == self.xh) and self.yl < y < self.yh) or \
-               ((y == self.yl or y == self.yh) and self.xl < x < self.xh)
+        return ((x == self.xl or x == self.xh) and self.yl <= y <= self.yh) or \
+               ((y == self.yl or y == self.yh) and self.xl <= x <= self.xh)
 
     def touches_side(self, other: 'BBox') -> bool:
         """Return True if other shares a border with this BBox, but does not overlap"""
-- 
2.43.0


From 4c97e5adffbdc31ec7340fff51d70e34d68bd17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 36/52] fix: bez_self_intersect must not change the handles of
 the given control points

---
 x7/geom/bezier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..14aea0a 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -348,6 +348,9 @@ class CpBool(object):
 def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[ControlPoint]]:  # noqa: C901 (complexity)
     """Return list of replacement curves or [] if no self intersections"""
 
+    # Handles are adjusted below, so work on copies
+    orig_cps = [cp.copy() for cp in orig_cps]
+
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
     for cpa, cpb in iter_rotate(orig_cps):
-- 
2.43.0


From c22eeb4a1b73152abd9b767a41c83ef0eb949029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 37/52] fix: non-linear mapping of a smooth control point whose
 handles coincide raised ZeroDivisionError

---
 x7/geom/bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 14aea0a..65fac46 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -85,7 +85,7 @@ class ControlPoint(object):
                 cp.dr = (cp.dr - cp.dl) / 2
                 cp.dl = -cp.dr
             elif cp.kind == 'smooth':
-                if cp.dl or cp.dr:
+                if cp.dl != cp.dr:
                     direction = (cp.dr - cp.dl).unit()
                     cp.dr = cp.dr.length() * direction
                     cp.dl = -cp.dl.length() * direction
-- 
2.43.0


From 9d5985c027c4a35d2a1e36b157565475146a3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 38/52] fix: drawing control points gave the corners of their
 boxes in an order that Pillow refuses

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1bc0ac1..5510ba8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -300,9 +300,9 @@ class Elem(ABC):
                     draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                     draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                     draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
-                    draw.draw.rectangle((cp.c + rad).xy() + (cp.c - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')
                 elif isinstance(cp, BasePoint):
-                    draw.draw.rectangle((cp + rad).xy() + (cp - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp - rad).xy() + (cp + rad).xy(), outline='red', fill='grey')
                 else:
                     raise TypeError('unknown control_path element: %r' % cp)
 
-- 
2.43.0


From edaa5b3a13ae2e819d1fa1214d75092913585714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 39/52] fix: ElemCurve.restore that is refused must not change
 the curve

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 5510ba8..b3c3fd6 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -386,8 +386,8 @@ class ElemCurve(Elem):
 
     def restore(self, other: 'ElemCurve'):
         """Restore self from copy in other"""
-        super().restore(other)
         if len(self.control_points) == len(other.control_points):
+            super().restore(other)
             for cp, ocp in zip(self.control_points, other.control_points):
                 cp.restore(ocp)
         else:
-- 
2.43.0


From 98444693ed6366519a4d85d226d745f0d0eefb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 40/52] fix: ElemCurve.add_one must not change the shape of a
 curve with one control point

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b3c3fd6..a58ca69 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -500,6 +500,8 @@ class ElemCurve(Elem):
         right = (left + 1) % len(cps)
         # print('add_one: left=%d right=%d len=%d' % (left, right, len(cps)))
         l, m, r = bez_split(cps[left], cps[right])
+        if left == right:
+            r.dr = l.dr     # The only segment leads from the point back to itself
         cps[left].restore(l)
         cps[right].restore(r)
         cps.insert(right, m)
-- 
2.43.0


From 49f11d8491eb9ecee7ac9f4f3bf5501f6da81e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 41/52] fix: elements without pen and brush were drawn with
 white lines

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a58ca69..5e9445d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -263,7 +263,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From 1448e247db041220819cae34fce924de332af745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 42/52] fix: replacing pen or brush by color number 0 was
 ignored

---
 x7/geom/colors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x7/geom/colors.py b/x7/geom/colors.py
index 7b18c48..e647ae8 100644
--- a/x7/geom/colors.py
+++ b/x7/geom/colors.py
@@ -24,7 +24,7 @@ class Colors(object):
 
     @property
     def filled(self):
-        return bool(self.fill)
+        return self.fill is not None
 
     def __repr__(self):
         return 'Colors(%s, %s)' % (self.outline, self.fill)
@@ -66,7 +66,7 @@ class Pen(object):
         return 'Pen(%r, %r)' % (self.brush.color, self.width)
 
     def replace(self, brush=None, width=None):
-        return Pen(brush or self.brush, width if width is not None else self.width)
+        return Pen(brush if brush is not None else self.brush, width if width is not None else self.width)
 
 
 class PenBrush(object):
@@ -122,11 +122,11 @@ class PenBrush(object):
         return 'PenBrush(%r, %r)' % (self.pen, self.brush)
 
     def replace(self, pen=None, width=None, brush=None):
-        if pen and width is not None:
+        if pen is not None and width is not None:
             raise ValueError("specify pen or width not both")
         if width is not None and self.pen:
             pen = Pen(self.pen.brush, width)
-        return PenBrush(pen or self.pen, brush or self.brush)
+        return PenBrush(pen if pen is not None else self.pen, brush if brush is not None else self.brush)
 
 
 class ColorsByShape(object):
-- 
2.43.0


From 13e837592f207c11ef8ccd81eecaa1bcf89075cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:21 +0000
Subject: [PATCH 43/52] fix: recorded control points with relative points could
 not be loaded

---
 x7/geom/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index b80541a..533afc6 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -31,7 +31,8 @@ class PicklerExtensionGeom(support.PicklerExtension):
         self.types = (Elem, )
 
     def methods(self):
-        meths = dict()
+        # Relative points & vectors appear inside the repr() of primitives
+        meths = dict(PointRelative=PointRelative, PointCalc=PointCalc, VectorRelative=VectorRelative)
         for primitive in self.primitives:
             meths[primitive.__name__] = primitive
         for elem in all_subclasses(Elem):
-- 
2.43.0


From 976cdfaeda543687d78f49e0a36f00eae7c923c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 44/52] fix: look up elements of groups that are parts of an
 element with holes

---
 x7/geom/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 5e9445d..4c1c73c 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1194,13 +1194,13 @@ class ElemWithHoles(Elem):
 
     def lookup(self, tag: str) -> Elem:
         head, sep, tail = tag.partition('.')
-        if head == 'outside':
-            if tail == self.outside.name:
-                return self.outside
-        elif head == 'inside':
-            for elem in self.inside:
-                if tail == elem.name:
-                    return elem
+        parts = [self.outside] if head == 'outside' else self.inside if head == 'inside' else []
+        for elem in parts:
+            if tail == elem.name:
+                return elem
+        for elem in parts:
+            if isinstance(elem, (Group, ElemWithHoles)) and tail.startswith(elem.name + '.'):
+                return elem.lookup(tail[len(elem.name)+1:])
         raise KeyError('%s: expected outside.%s or inside.{%s}, not %s' % (
             self.name, self.outside.name, ', '.join(e.name for e in self.inside), tag))
 
-- 
2.43.0


From 7ccf59ae71712b02a2d86dc1b399431a922759aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 45/52] fix: splitting a curve made sharp control points smooth

---
 x7/geom/bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 65fac46..4efecca 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -639,6 +639,10 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     def mid(p: BasePoint, q: BasePoint):
         return p + t*(q-p)
 
+    def kind(cp: ControlPoint):
+        # The handles of a split curve are shorter, so they no longer balance the other side
+        return 'smooth' if cp.kind == 'very-smooth' else cp.kind
+
     a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c
     ab = mid(a, b)
     bc = mid(b, c)
@@ -647,9 +651,9 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     bcd = mid(bc, cd)
     abcd = mid(abc, bcd)
 
-    left = ControlPoint(a, cp1.dl, ab-a)
+    left = ControlPoint(a, cp1.dl, ab-a, kind(cp1))
     middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
-    right = ControlPoint(d, cd-d, cp2.dr)
+    right = ControlPoint(d, cd-d, cp2.dr, kind(cp2))
 
     return left, middle, right
 
-- 
2.43.0


From 29f103d47dadfe8f69abaa63910272773d71b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 46/52] fix: segments with large coordinates failed a debugging
 assertion when intersected

---
 x7/geom/geom.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index dbb6d93..7e752e1 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -902,11 +902,4 @@ class Line(object):
         t_self = other_normal.dot(other.origin-self.origin)/other_normal.dot(self.direction)
         if t_self < 0 or t_self > 1:
             return None
-        debug = True
-        if debug:
-            p_other = other.origin+other.direction*t_other
-            p_self = self.origin+self.direction*t_self
-            # print('self: %s@%s  other: %s@%s  length: %s' % (
-            #       p_self, t_self, p_other, t_other, (p_self-p_other).length()))
-            assert (p_self-p_other).length() < 1e-7
         return other.origin + other.direction*t_other, t_self, t_other
-- 
2.43.0


From cf8c19467c2b03fa6e3bd62acc499fe5f7f84cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 47/52] fix: lookup in a group accepted paths ending in a dot

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 4c1c73c..08ce2fa 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -987,7 +987,7 @@ class Group(Elem):
         if head not in self.elems:
             raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
         item = self.elems[head]
-        if tail:
+        if sep:
             if isinstance(item, (Group, ElemWithHoles)):
                 return item.lookup(tail)
             else:
-- 
2.43.0


From 2ddbf3fdf8d48cda5f51f6d19c57958bb58a8287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 48/52] fix: palettes for animations could not be made with
 current Pillow

---
 x7/geom/anim.py      | 2 +-
 x7/geom/imagehelp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f41413f..092529d 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -529,7 +529,7 @@ class Builder(object):
             print('make_palette: found %d colors' % len(colors))
         all_colors = list(reversed(sorted([(v, k) for k, v in colors.items()])))
 
-        im.palette.colors = {}  # Start over on list of colors
+        im.palette.palette = b''    # Start over on list of colors
         for count, color in all_colors[:256]:
             im.palette.getcolor(color)
         im.load()  # Force palette to be loaded into actual image
diff --git a/x7/geom/imagehelp.py b/x7/geom/imagehelp.py
index c4836d4..ac6eec7 100644
--- a/x7/geom/imagehelp.py
+++ b/x7/geom/imagehelp.py
@@ -152,7 +152,7 @@ def palette_image(empty_image=False):
     """Return a 16-place palette image"""
     im = Image.new('P', (1024, 64))
     pal: ImagePalette.ImagePalette = im.palette
-    pal.palette = b'\x00' * 768
+    pal.palette = b''
     pal.getcolor((0, 0, 0))
     pal.getcolor((255, 255, 255))
     if not empty_image:
-- 
2.43.0


From eba71de98c6663b9fc8e8e538a542842d4b7ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 49/52] fix: two color frames could not be converted with
 current Pillow

---
 x7/geom/anim.py      | 3 +--
 x7/geom/imagehelp.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 092529d..5769704 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -428,8 +428,7 @@ def rgb_to_transparent(im, colors=256, palette_image=None, two_color_flip=False)
             # A bit of laziness.  Turns out for white images, the ADAPTIVE palette is [almost-white, black],
             # so we can turn it into [black, white] fairly easily.
             im = im.remap_palette([1, 0])  # Rewrite the image with 0 as black and 1 as white
-            im.palette.palette = b'\xFF' * 768  # Now, make the palette all white
-            im.palette.getcolor((0, 0, 0))  # Except for first entry as black
+            im.putpalette(b'\x00' * 3 + b'\xFF' * 765)  # Now, make the palette all white, except for first entry as black
 
     im.info['transparency'] = im.getpixel((0, 0))  # Assume upper-left pixel should be transparent
 
diff --git a/x7/geom/imagehelp.py b/x7/geom/imagehelp.py
index ac6eec7..def80a2 100644
--- a/x7/geom/imagehelp.py
+++ b/x7/geom/imagehelp.py
@@ -140,8 +140,7 @@ def rgb_to_transparent(im, colors=256, palette_image=None):
         # A bit of laziness.  Turns out for white images, the ADAPTIVE palette is [almost-white, black],
         # so we can turn it into [black, white] fairly easily.
         im = im.remap_palette([1, 0])  # Rewrite the image with 0 as black and 1 as white
-        im.palette.palette = b'\xFF' * 768  # Now, make the palette all white
-        im.palette.getcolor((0, 0, 0))  # Except for first entry as black
+        im.putpalette(b'\x00' * 3 + b'\xFF' * 765)  # Now, make the palette all white, except for first entry as black
 
     im.info['transparency'] = im.getpixel((0, 0))  # Assume upper-left pixel should be transparent
 
-- 
2.43.0


From 34af80427862dcad9ed2475508a0389889727cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 50/52] fix: animations were not saved on Linux

---
 x7/geom/anim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 5769704..2780064 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -571,6 +571,8 @@ class Builder(object):
             writeGif(output, images, duration=ms_per_frame / 1000.0)
             # [im.resize((100,100)).show() for im in images]
             platform.quicklook(output)
+        else:
+            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0)
 
     def run(self, steps=10, output=None):
         self.build_all(steps=steps)
-- 
2.43.0


From 73571af1046292cad38e26e951bc7614384e2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 51/52] fix: animations with nothing to see could not be saved

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 2780064..d168872 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -545,7 +545,7 @@ class Builder(object):
         if autocrop:
             xs, ys = images[0].size
             bb = self.max_bbox(images)
-            xl, yl, xh, yh = bb
+            xl, yl, xh, yh = bb or (0, 0, xs, ys)   # No crop if there is nothing to see
             radius = 16
             bb = (max(0, xl - radius), max(0, yl - radius), min(xs, xh + radius), min(ys, yh + radius))
             images = [im.crop(bb) for im in images]
-- 
2.43.0


From d16446a98608b74c6f02271adbd17cdd2bfc2a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 52/52] fix: Transformer.transform_pts,
 Transform.untransform_pts: map an empty list to an empty list

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 4f3bc6b..1f7726b 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -64,7 +64,7 @@ class Transformer(ABC):
     @staticmethod
     def points_to_np_points(points: List[BasePoint]) -> NumpyPoints:
         """Convert list of Points into multiple numpy points"""
-        return np.array([(x, y, 1) for x, y in points]).T
+        return np.array([(x, y, 1) for x, y in points]).reshape(-1, 3).T
 
     @staticmethod
     def xy_to_np_point(x, y) -> NumpyPoints:
@@ -109,7 +109,7 @@ class Transformer(ABC):
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
             return [v for np_pt in np_pts for v in (np_pt[0], np_pt[1])]
-        elif isinstance(pts[0], BasePoint):
+        elif len(pts) and isinstance(pts[0], BasePoint):
             return [Point(np_pt[0], np_pt[1]) for np_pt in np_pts]
         else:
             return [(np_pt[0], np_pt[1]) for np_pt in np_pts]
@@ -296,7 +296,7 @@ class Transform(Transformer):
 
     def untransform_pts(self, pts: List[Tuple[Number, Number]]):
         """Transform a list"""
-        pts = np.array([(x, y, 1) for x, y in pts]).T
+        pts = np.array([(x, y, 1) for x, y in pts]).reshape(-1, 3).T
         # print('transform: pts=', pts)
         pts = np.dot(self.inverse, pts).T
         return [(x, y) for x, y, z in pts]
-- 
2.43.0

