From fc62d94695ccbfe4356d39402e9bcece2f4dc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 001/101] fix: mirror at the line with the given direction, not
 with the opposite angle

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..d4997f8 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+              2*math.sin(phi)*math.cos(phi)                 ),
+             (2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From 2ca07056b80d68e84ab5848cb1d38dec3b3af573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 002/101] fix: define the exception raised for incomplete
 transformation centres

---
 pyx/trafo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index d4997f8..642720e 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -47,6 +47,9 @@ def _mmatrix(angle):
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
+class TrafoException(Exception): pass
+
+
 # trafo: affine transformations
 
 class trafo_pt(baseclasses.deformer):
-- 
2.43.0


From 89cb6f6248f8150645e6d44bbb6d614e0d0039f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 003/101] fix: slant along the given direction around the given
 point

---
 pyx/trafo.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 642720e..55f2a8c 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -231,18 +231,26 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate_pt(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate_pt(angle, x, y) )
+        vector = 0, 0
+        if x is not None or y is not None:
+            if x is None or y is None:
+                raise TrafoException("either specify both x and y or none of them")
+            vector = x, y
+        t = ( translate_pt(vector[0], vector[1]) *
+              rotate_pt(angle) *
+              trafo_pt(matrix=((1, a), (0, 1))) *
+              rotate_pt(-angle) *
+              translate_pt(-vector[0], -vector[1]) )
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
-class slant(trafo):
+class slant(slant_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate(-angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
-              rotate(angle, x, y) )
-        trafo.__init__(self, t.matrix, t.vector)
+        if x is not None:
+            x = unit.topt(x)
+        if y is not None:
+            y = unit.topt(y)
+        slant_pt.__init__(self, a, angle, x, y)
 
 
 class translate_pt(trafo_pt):
-- 
2.43.0


From f8c1b31be7478b08ff79af70ae457ed81f734d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 004/101] fix: asking an empty bounding box for a coordinate as
 a length is an error

---
 pyx/bbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..2e174a6 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -305,19 +305,19 @@ class bbox_pt:
 
     def top(self):
         """return top coordinate of bbox"""
-        return self.ury_pt * unit.t_pt
+        return self.top_pt() * unit.t_pt
 
     def bottom(self):
         """return bottom coordinate of bbox"""
-        return self.lly_pt * unit.t_pt
+        return self.bottom_pt() * unit.t_pt
 
     def left(self):
         """return left coordinate of bbox"""
-        return self.llx_pt * unit.t_pt
+        return self.left_pt() * unit.t_pt
 
     def right(self):
         """return right coordinate of bbox"""
-        return self.urx_pt * unit.t_pt
+        return self.right_pt() * unit.t_pt
 
     def center(self):
         """return coordinates of the center of the bbox"""
-- 
2.43.0


From a1d062b75802da12b3d96c78ded3eda51509dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 005/101] fix: the intersection of bounding boxes without
 common points is empty

---
 pyx/bbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 2e174a6..8b96593 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,7 +75,7 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
                            min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
         else:
@@ -83,13 +83,13 @@ class bbox_pt:
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             self.llx_pt = max(self.llx_pt, other.llx_pt)
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
-        elif other.llx_pt is None:
-            self.llx_pt = None
+        else:
+            self.set(empty())
         return self
 
     def copy(self):
-- 
2.43.0


From f19332b0f1d83cd699275db928a4e11883af9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 006/101] fix: closepath moves the current point to the subpath
 start in SVG output too

---
 pyx/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..3c3e722 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -312,6 +312,8 @@ class closepath(pathitem):
         file.write("closepath\n")
 
     def returnSVGdata(self, inverse_y, first, context):
+        context.x_pt = context.subfirstx_pt
+        context.y_pt = context.subfirsty_pt
         return "Z"
 
 
-- 
2.43.0


From f570a074f89ed1dcf00b9a846c36450ba32e19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 007/101] fix: do not invert the y coordinate of the current
 point after an arc in SVG output

---
 pyx/path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 3c3e722..e7c72d0 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -683,8 +683,7 @@ class arc_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
@@ -780,8 +779,7 @@ class arcn_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
-- 
2.43.0


From 1cc380a00fb9c5d1140561513c8e8da8fe3e37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 008/101] fix: take arc lengths in points in path.rotation_pt
 and path.trafo_pt

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index e7c72d0..1bdfc6a 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1252,7 +1252,7 @@ class path:
 
     def rotation_pt(self, params):
         """return rotation at param(s) or arc length(s) in pts"""
-        return self.normpath().rotation(params)
+        return self.normpath().rotation_pt(params)
 
     def rotation(self, params):
         """return rotation at param(s) or arc length(s)"""
@@ -1284,7 +1284,7 @@ class path:
 
     def trafo_pt(self, params):
         """return transformation at param(s) or arc length(s) in pts"""
-        return self.normpath().trafo(params)
+        return self.normpath().trafo_pt(params)
 
     def trafo(self, params):
         """return transformation at param(s) or arc length(s)"""
-- 
2.43.0


From d85bfcaf60bcb3d9549a73210f8a5e2b13cf8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 009/101] fix: arct with coinciding tangent points is a line as
 documented, not a ZeroDivisionError

---
 pyx/path.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 1bdfc6a..67d16fe 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -810,26 +810,26 @@ class arct_pt(pathitem):
         which will delegate the work to the constructed pathitem.
         """
 
-        # direction of tangent 1
-        dx1_pt, dy1_pt = self.x1_pt-x_pt, self.y1_pt-y_pt
-        l1_pt = math.hypot(dx1_pt, dy1_pt)
-        dx1, dy1 = dx1_pt/l1_pt, dy1_pt/l1_pt
-
-        # direction of tangent 2
-        dx2_pt, dy2_pt = self.x2_pt-self.x1_pt, self.y2_pt-self.y1_pt
-        l2_pt = math.hypot(dx2_pt, dy2_pt)
-        dx2, dy2 = dx2_pt/l2_pt, dy2_pt/l2_pt
-
-        # intersection angle between two tangents in the range (-pi, pi).
-        # We take the orientation from the sign of the vector product.
-        # Negative (positive) angles alpha corresponds to a turn to the right (left)
-        # as seen from currentpoint.
-        if dx1*dy2-dy1*dx2 > 0:
-            alpha = acos(dx1*dx2+dy1*dy2) 
-        else:
-            alpha = -acos(dx1*dx2+dy1*dy2) 
-
         try:
+            # direction of tangent 1
+            dx1_pt, dy1_pt = self.x1_pt-x_pt, self.y1_pt-y_pt
+            l1_pt = math.hypot(dx1_pt, dy1_pt)
+            dx1, dy1 = dx1_pt/l1_pt, dy1_pt/l1_pt
+
+            # direction of tangent 2
+            dx2_pt, dy2_pt = self.x2_pt-self.x1_pt, self.y2_pt-self.y1_pt
+            l2_pt = math.hypot(dx2_pt, dy2_pt)
+            dx2, dy2 = dx2_pt/l2_pt, dy2_pt/l2_pt
+
+            # intersection angle between two tangents in the range (-pi, pi).
+            # We take the orientation from the sign of the vector product.
+            # Negative (positive) angles alpha corresponds to a turn to the right (left)
+            # as seen from currentpoint.
+            if dx1*dy2-dy1*dx2 > 0:
+                alpha = acos(dx1*dx2+dy1*dy2) 
+            else:
+                alpha = -acos(dx1*dx2+dy1*dy2) 
+
             # two tangent points
             xt1_pt = self.x1_pt - dx1*self.r_pt*tan(abs(alpha)/2)
             yt1_pt = self.y1_pt - dy1*self.r_pt*tan(abs(alpha)/2)
-- 
2.43.0


From 51b49e10c1f2ef3e9dff3bd4fb384c618aeab17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 010/101] fix: straight lines and curves continue after
 closepath in normpaths

---
 pyx/path.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 67d16fe..e9088df 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -281,6 +281,13 @@ class pathitem:
 
 
 
+def _opennormsubpath(normpath):
+    """return the last normsubpath to append to, after closepath a new one"""
+    if normpath.normsubpaths[-1].closed:
+        normpath.append(normsubpath(epsilon=normpath.normsubpaths[-1].epsilon))
+    return normpath.normsubpaths[-1]
+
+
 ################################################################################
 # various pathitems
 ################################################################################
@@ -396,7 +403,7 @@ class lineto_pt(pathitem):
         context.y_pt = self.y_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normline_pt(context.x_pt, context.y_pt,
+        _opennormsubpath(normpath).append(normline_pt(context.x_pt, context.y_pt,
                                                      self.x_pt, self.y_pt))
         context.x_pt = self.x_pt
         context.y_pt = self.y_pt
@@ -440,7 +447,7 @@ class curveto_pt(pathitem):
         context.y_pt = self.y3_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normcurve_pt(context.x_pt, context.y_pt,
+        _opennormsubpath(normpath).append(normcurve_pt(context.x_pt, context.y_pt,
                                                       self.x1_pt, self.y1_pt,
                                                       self.x2_pt, self.y2_pt,
                                                       self.x3_pt, self.y3_pt))
@@ -524,7 +531,7 @@ class rlineto_pt(pathitem):
         context.y_pt += self.dy_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normline_pt(context.x_pt, context.y_pt,
+        _opennormsubpath(normpath).append(normline_pt(context.x_pt, context.y_pt,
                                                      context.x_pt + self.dx_pt, context.y_pt + self.dy_pt))
         context.x_pt += self.dx_pt
         context.y_pt += self.dy_pt
@@ -574,7 +581,7 @@ class rcurveto_pt(pathitem):
         context.y_pt += self.dy3_pt
 
     def updatenormpath(self, normpath, context):
-        normpath.normsubpaths[-1].append(normcurve_pt(context.x_pt, context.y_pt,
+        _opennormsubpath(normpath).append(normcurve_pt(context.x_pt, context.y_pt,
                                                       context.x_pt + self.dx1_pt, context.y_pt + self.dy1_pt,
                                                       context.x_pt + self.dx2_pt, context.y_pt + self.dy2_pt,
                                                       context.x_pt + self.dx3_pt, context.y_pt + self.dy3_pt))
@@ -1007,7 +1014,7 @@ class multilineto_pt(pathitem):
     def updatenormpath(self, normpath, context):
         x0_pt, y0_pt = context.x_pt, context.y_pt
         for point_pt in self.points_pt:
-            normpath.normsubpaths[-1].append(normline_pt(x0_pt, y0_pt, *point_pt))
+            _opennormsubpath(normpath).append(normline_pt(x0_pt, y0_pt, *point_pt))
             x0_pt, y0_pt = point_pt
         context.x_pt, context.y_pt = x0_pt, y0_pt
 
@@ -1049,7 +1056,7 @@ class multicurveto_pt(pathitem):
     def updatenormpath(self, normpath, context):
         x0_pt, y0_pt = context.x_pt, context.y_pt
         for point_pt in self.points_pt:
-            normpath.normsubpaths[-1].append(normcurve_pt(x0_pt, y0_pt, *point_pt))
+            _opennormsubpath(normpath).append(normcurve_pt(x0_pt, y0_pt, *point_pt))
             x0_pt, y0_pt = point_pt[4:]
         context.x_pt, context.y_pt = x0_pt, y0_pt
 
-- 
2.43.0


From 1472edfaf817776824d155ab41e0cbea87ae7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 011/101] fix: appending a path item to an empty normpath

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f0da965..e9247ed 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1629,7 +1629,7 @@ class normpath:
                                          self.normsubpaths[-1].atbegin_pt()))
                 item.updatenormpath(self, context)
             else:
-                self.normsubpaths = item.createnormpath(self).normsubpaths
+                self.normsubpaths = item.createnormpath().normsubpaths
 
     def arclen_pt(self, upper=False):
         """return arc length in pts
-- 
2.43.0


From 22230556871aa7faec814d09cfbdb63777d6723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 012/101] fix: SVG arcs turn in the right direction when the y
 coordinate is not inverted

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index e9088df..aff6b5e 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -688,7 +688,7 @@ class arc_pt(pathitem):
             x_pt, y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, angle1 + (i+1)*(angle2-angle1)/subdivisions)
             if inverse_y:
                 y_pt = -y_pt
-            data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
+            data.append("A%g %g 0 %s %s %g %g" % (self.r_pt, self.r_pt, large, "0" if inverse_y else "1", x_pt, y_pt))
 
         context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
@@ -784,7 +784,7 @@ class arcn_pt(pathitem):
             x_pt, y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, angle1 + (i+1)*(angle2-angle1)/subdivisions)
             if inverse_y:
                 y_pt = -y_pt
-            data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
+            data.append("A%g %g 0 %s %s %g %g" % (self.r_pt, self.r_pt, large, "1" if inverse_y else "0", x_pt, y_pt))
 
         context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
-- 
2.43.0


From 7632cb0d0b449c5b8350b947c7d8203355fe088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 013/101] fix: middle point of short lines in line
 intersections

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index e9247ed..49ca992 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -225,7 +225,7 @@ class normline_pt(normsubpathitem):
                 # account.
                 if short_self:
                     sx_pt = 0.5*(self.x0_pt + self.x1_pt)
-                    sy_pt = 0.5*(self.y0_pt + self.x1_pt)
+                    sy_pt = 0.5*(self.y0_pt + self.y1_pt)
                 if short_other:
                     ox_pt = 0.5*(other.x0_pt + other.x1_pt)
                     oy_pt = 0.5*(other.y0_pt + other.y1_pt)
-- 
2.43.0


From bfaa53ee5d0fda19f3bb96148c2508b66fa0c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 014/101] fix: division of normpath parameters in Python 3

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 49ca992..bc7742b 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1494,7 +1494,7 @@ class normpathparam:
 
     __rmul__ = __mul__
 
-    def __div__(self, divisor):
+    def __truediv__(self, divisor):
         return self.normpath.arclentoparam_pt(self.normpath.paramtoarclen_pt(self) / divisor)
 
     def __neg__(self):
-- 
2.43.0


From 127a34af266a30bfb35c50b375303353db0bb9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 015/101] fix: a segment covering a whole closed normsubpath
 contained all its items twice

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index bc7742b..75beb69 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1364,7 +1364,7 @@ class normsubpath:
         result[-1].append(segments[0])
         result.extend([normsubpath([segment], epsilon=self.epsilon) for segment in segments[1:]])
 
-        if self.closed:
+        if self.closed and len(result) > 1:
             # join last and first segment together if the normsubpath was
             # originally closed and first and the last parameters are the
             # beginning and end points of the normsubpath
-- 
2.43.0


From ab3f1262b5be0a3cd4f4f65962d6cd349369ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 016/101] fix: pass keyword arguments through canvas.text_pt

---
 pyx/canvas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..75f4dbc 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -414,14 +414,14 @@ class canvas(baseclasses.canvasitem):
         return self.insert(self.textengine.text(x, y, atext, *args, **kwargs))
 
 
-    def text_pt(self, x, y, atext, *args):
+    def text_pt(self, x, y, atext, *args, **kwargs):
         """insert a text into the canvas
 
         inserts a textbox created by self.textengine.text_pt into the canvas
 
         returns the inserted textbox"""
 
-        return self.insert(self.textengine.text_pt(x, y, atext, *args))
+        return self.insert(self.textengine.text_pt(x, y, atext, *args, **kwargs))
 
     writeEPSfile = _wrappedindocument(document.document.writeEPSfile)
     writePSfile = _wrappedindocument(document.document.writePSfile)
-- 
2.43.0


From 5a3d60582284fff81be2a5bb69b16a81cdbac4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 017/101] fix: xvtickpoint and zvtickpoint_pt of graphs were
 bound to other axis methods

---
 pyx/graph/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index c337591..8997b67 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -382,7 +382,7 @@ class graphxy(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -849,7 +849,7 @@ class graphxyz(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -870,7 +870,7 @@ class graphxyz(graph):
             self.zgridpath = self.axes["z"].gridpath
             self.ztickpoint_pt = self.axes["z"].tickpoint_pt
             self.ztickpoint = self.axes["z"].tickpoint
-            self.zvtickpoint_pt = self.axes["z"].vtickpoint
+            self.zvtickpoint_pt = self.axes["z"].vtickpoint_pt
             self.zvtickpoint = self.axes["z"].vtickpoint
             self.ztickdirection = self.axes["z"].tickdirection
             self.zvtickdirection = self.axes["z"].vtickdirection
-- 
2.43.0


From b627b78c08695143e5b4cc4994d68fe42e462426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 018/101] fix: vtickpoint of an axis multiplied a tuple by a
 length

---
 pyx/graph/axis/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..9d11585 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -640,7 +640,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
-- 
2.43.0


From 86b2ff2f16660f9ca9931379f8be50f2df1307f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 019/101] fix: base path between two positions of a path axis

---
 pyx/graph/axis/positioner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/positioner.py b/pyx/graph/axis/positioner.py
index 7396f5b..35996c6 100644
--- a/pyx/graph/axis/positioner.py
+++ b/pyx/graph/axis/positioner.py
@@ -67,7 +67,7 @@ class pathpositioner(_positioner):
             if v2 is None:
                 return self.normpath.split(self.normpath.arclentoparam(v1 * self.arclen))[1]
             else:
-                return self.normpath.split(*self.normpath.arclentoparam([v1 * self.arclen, v2 * self.arclen]))[1]
+                return self.normpath.split(self.normpath.arclentoparam([v1 * self.arclen, v2 * self.arclen]))[1]
 
     def vtickpoint_pt(self, v):
         return self.normpath.at_pt(self.normpath.arclentoparam(v * self.arclen))
-- 
2.43.0


From e65b827f3dc747b14456066dcd2c6ff6c24ff8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 020/101] fix: axis labels and divisors no longer change the
 given manual ticks

---
 pyx/graph/axis/axis.py     | 6 +++---
 pyx/graph/axis/timeaxis.py | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 9d11585..5b756fa 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -150,7 +150,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = [copy.copy(t) for t in self.manualticks]
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -196,7 +196,7 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                ticks = tick.mergeticklists([copy.copy(t) for t in self.manualticks], ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index eb27716..48fed9f 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -66,6 +66,11 @@ class timetick(datetime.datetime):
         self.label = label
         self.labelattrs = labelattrs[:]
 
+    def __copy__(self):
+        return timetick(self.year, self.month, self.day, ticklevel=self.ticklevel, labellevel=self.labellevel,
+                        label=self.label, labelattrs=self.labelattrs, hour=self.hour, minute=self.minute,
+                        second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo, fold=self.fold)
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0


From 38643ea109f4f88f99f40838ebac3505ea2abe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 021/101] fix: an axis with an empty canvas was created again
 and again

---
 pyx/graph/axis/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 5b756fa..8a0c6c4 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -224,7 +224,7 @@ class _regularaxis(_axis):
         for variant in variants:
             variant.storedcanvas = None
         variants.sort()
-        while not variants[0].storedcanvas:
+        while variants[0].storedcanvas is None:
             variants[0].storedcanvas = layout(variants[0])
             ratelayout = rater.ratelayout(variants[0].storedcanvas)
             if ratelayout is None:
@@ -594,7 +594,7 @@ class anchoredaxis:
         self._createkwargs = kwargs
 
     def docreate(self):
-        if not self.canvas:
+        if self.canvas is None:
             self._createfunction(*self._createargs, **self._createkwargs)
 
     def setpositioner(self, positioner):
-- 
2.43.0


From 5c1c527f79808a443b0f277d4c6745fa6981d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 022/101] fix: copying a rational lost its exactness

---
 pyx/graph/axis/tick.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 29000a6..18fcdd1 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -117,6 +117,9 @@ class rational:
             self.denom = 1
             return
         try:
+            # is x a rational (which must not be converted into a float)
+            if isinstance(x, rational):
+                raise TypeError("not a plain number")
             # does x behave like a number
             x + 0
         except Exception:
-- 
2.43.0


From 1112326a130e108c106835e1a8a59ae3bee62fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 023/101] fix: comparisons of rationals with negative
 denominators

---
 pyx/graph/axis/tick.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 18fcdd1..96da5b0 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -144,7 +144,7 @@ class rational:
         else:
             # x is a number
             self.initfromfloat(x, floatprecision)
-        if not self.denom: raise ZeroDivisionError("zero denominator")
+        self._normsign()
         if power == -1:
             self.num, self.denom = self.denom, self.num
         elif power < -1:
@@ -159,6 +159,15 @@ class rational:
             else:
                 self.num = int(self.num) ** power
                 self.denom = int(self.denom) ** power
+        if power < 0:
+            self._normsign()
+
+    def _normsign(self):
+        "keeps the denominator positive (the comparison operators rely on that)"
+        if not self.denom: raise ZeroDivisionError("zero denominator")
+        if self.denom < 0:
+            self.num = -self.num
+            self.denom = -self.denom
 
     def __lt__(self, other):
         try:
@@ -195,6 +204,7 @@ class rational:
     def __idiv__(self, other):
         self.num *= other.denom
         self.denom *= other.num
+        self._normsign()
         return self
 
     __itruediv__ = __idiv__
-- 
2.43.0


From fecebf251d744ab2df5defb2851132511908072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 024/101] fix: range extension of logarithmic partitions at
 negative values

---
 pyx/graph/axis/parter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 08f123e..2812e35 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -234,6 +234,7 @@ class logarithmic(linear):
         neglog = max < 0
         if neglog:
             min, max = -max, -min
+            extendmin, extendmax = extendmax, extendmin
         minpower = None
         maxpower = None
         for i in range(len(preexp.pres)):
-- 
2.43.0


From 9ac2276a86f9a6aa903106529432a2311a9e0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 025/101] fix: do not scale the rotation angle of SVG arcs

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0f956f9..9171a99 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -223,7 +223,7 @@ class svgHandler(svgBaseHandler):
                         while args:
                             rx, args = self.toFloat(args)
                             ry, args = self.toFloat(args)
-                            phi, args = self.toFloat(args)
+                            phi, args = self.toFloat(args, units=False)
                             fA, args = self.toBool(args)
                             fS, args = self.toBool(args)
                             x2, args = self.toFloat(args)
-- 
2.43.0


From 32456ff777b6de990ab1946cd49ecbfd803a532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 026/101] fix: order and orientation of SVG matrix and skew
 transformations

---
 pyx/svgfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 9171a99..ed8a461 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -252,7 +252,7 @@ class svgHandler(svgBaseHandler):
                 d, args = self.toFloat(args, units=False)
                 e, args = self.toFloat(args)
                 f = self.toFloat(args, single=True)
-                t = t * trafo.trafo_pt(((a, b), (c, d)), (e, f))
+                t = trafo.trafo_pt(((a, c), (b, d)), (e, f)) * t
             elif cmd == "translate":
                 args = list(self.toFloats(args))
                 if len(args) == 1:
@@ -274,10 +274,10 @@ class svgHandler(svgBaseHandler):
                     b, c = 0, 0
                 t = t.rotated_pt(a, b, c)
             elif cmd == "skewX":
-                t = t * trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1)))
+                t = trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1))) * t
             else:
                 assert cmd == "skewY"
-                t = t * trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1)))
+                t = trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1))) * t
         return t
 
     def toColor(self, name, inherit):
-- 
2.43.0


From 8f96c1265d1f4e7516a4dc0755449f1dcae1d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 027/101] fix: reflect control points of SVG smooth curves
 behind curves of the same kind only

---
 pyx/svgfile.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index ed8a461..7bec535 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -145,6 +145,7 @@ class svgHandler(svgBaseHandler):
     def toPath(self, svgPath):
         # Note: all lengths are _pt, but _pt has been skipped to prevent clumsy notation
         p = path.path()
+        lastcmd = None
         for match in _svgPathPattern.finditer(svgPath):
             cmd = match.group("cmd")
             args = match.group("args")
@@ -177,7 +178,9 @@ class svgHandler(svgBaseHandler):
                             x1, y1, x2, y2, x3, y3, *args = args
                         else:
                             x2, y2, x3, y3, *args = args
-                            if isinstance(p[-1], path.curveto_pt):
+                            if lastcmd not in ["C", "c", "S", "s"]:
+                                x1, y1 = 0, 0
+                            elif isinstance(p[-1], path.curveto_pt):
                                 x1 = p[-1].x3_pt - p[-1].x2_pt
                                 y1 = p[-1].y3_pt - p[-1].y2_pt
                             elif isinstance(p[-1], path.rcurveto_pt):
@@ -191,6 +194,7 @@ class svgHandler(svgBaseHandler):
                                 y1 += y0
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
                                  path.rcurveto_pt(x1, y1, x2, y2, x3, y3))
+                        lastcmd = cmd
                 elif cmd in "QqTt":
                     while args:
                         x0, y0 = p.atend_pt()
@@ -206,7 +210,9 @@ class svgHandler(svgBaseHandler):
                             if cmd == "t":
                                 x3 += x0
                                 y3 += y0
-                            if isinstance(p[-1], path.curveto_pt):
+                            if lastcmd not in ["Q", "q", "T", "t"]:
+                                xq, yq = x0, y0
+                            elif isinstance(p[-1], path.curveto_pt):
                                 xq = x0 + 3/2 * (p[-1].x3_pt - p[-1].x2_pt)
                                 yq = y0 + 3/2 * (p[-1].y3_pt - p[-1].y2_pt)
                             elif isinstance(p[-1], path.rcurveto_pt):
@@ -219,6 +225,7 @@ class svgHandler(svgBaseHandler):
                         x2 = x3 + 2/3 * (xq - x3)
                         y2 = y3 + 2/3 * (yq - y3)
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
+                        lastcmd = cmd
                 elif cmd in "aA":
                         while args:
                             rx, args = self.toFloat(args)
@@ -238,6 +245,7 @@ class svgHandler(svgBaseHandler):
                     p.append(path.closepath())
             except svgValueError:
                 pass
+            lastcmd = cmd
         return p
 
     def toTrafo(self, svgTrafo):
-- 
2.43.0


From 0161b4906c03853a11a6d55ad8fd9b838f6d9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 028/101] fix: omit SVG arcs with identical end points

---
 pyx/svgfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 7bec535..375d8c5 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -239,7 +239,8 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
-                            p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
+                            if (x1, y1) != (x2, y2): # otherwise omit the arc
+                                p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
                 else:
                     assert cmd in "zZ"
                     p.append(path.closepath())
-- 
2.43.0


From 90fb7fe43a38433ec0bca8e6ec33d0ed401c4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 029/101] fix: keep the dash pattern of imported SVG paths for
 repeated output

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 375d8c5..362bd86 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -373,7 +373,7 @@ class svgHandler(svgBaseHandler):
             if (None, "transform") in attributes:
                 attrs.append(self.toTrafo(attributes[None, "transform"]))
             if (None, "stroke-dasharray") in attributes:
-                attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
+                attrs.append(style.dash(list(self.toFloats(attributes[None, "stroke-dasharray"])),
                                         offset=floatAttr("stroke-dashoffset", 0),
                                         rellengths=False))
             if (None, "stroke-linecap") in attributes:
-- 
2.43.0


From 29da06e697474b248cf0c523621f9fe50eff0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 030/101] fix: units of the SVG miter limit and default stroke
 width

---
 pyx/svgfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 362bd86..4a5c86d 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -385,7 +385,7 @@ class svgHandler(svgBaseHandler):
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
             if (None, "stroke-miterlimit") in attributes:
-                attrs.append(style.miterlimit(floatAttr("stroke-miterlimit")))
+                attrs.append(style.miterlimit(self.toFloat(attributes[None, "stroke-miterlimit"], units=False)[0]))
             if (None, "stroke-width") in attributes:
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
             if (None, "fill-rule") in attributes:
@@ -396,7 +396,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(1*unit.t_pt), style.miterlimit(4)])
+                attrs = pathAttrs([style.linewidth(self.toFloat("1")[0]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
-- 
2.43.0


From 95e1f9381d54cfaffb510564bbe21467f01e31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 031/101] fix: clip imported SVG files in points

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 4a5c86d..0c69818 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -402,7 +402,7 @@ class svgHandler(svgBaseHandler):
                 if (None, "viewBox") in attributes:
                     inner_x, inner_y, inner_width, inner_height = self.toFloats(attributes[None, "viewBox"])
                     if attributes.get((None, "clip"), "auto") == "auto":
-                        attrs.append(canvas.clip(path.rect(inner_x, inner_y, inner_width, inner_height)))
+                        attrs.append(canvas.clip(path.rect_pt(inner_x, inner_y, inner_width, inner_height)))
                     outer_width = self.toFloat(attributes.get((None, "width"), "100%"), single=True, relative=inner_width)
                     outer_height = self.toFloat(attributes.get((None, "height"), "100%"), single=True, relative=inner_height)
                     self.bbox = bbox.bbox_pt(outer_x, -outer_y, outer_x+outer_width, -outer_y+outer_height)
-- 
2.43.0


From d1fdb1871cecc69389d1b9d0e764e137f32e9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 032/101] fix: no-operation commands within a DVI page are no
 error

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ebe938e..50616a6 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -447,7 +447,7 @@ class DVIfile:
                 continue
             if cmd == _DVI_NOP:
                 pass
-            if cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
+            elif cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
                 self.putchar(cmd, True, 0, fontmap)
             elif cmd >= _DVI_SET1234 and cmd < _DVI_SET1234 + 4:
                 self.putchar(afile.readint(cmd - _DVI_SET1234 + 1), True, cmd-_DVI_SET1234+1, fontmap)
-- 
2.43.0


From 4113f14b9a0a707c6d4cc52dcbd9163257ae4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 033/101] fix: rules in virtual font characters advance by
 their width

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 50616a6..b03ad64 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -154,7 +154,7 @@ class DVIfile:
             if self.debug:
                 self.debugfile.write(" h:=%d+%d=%d, hh:=???\n" %
                                      (self.pos[_POS_H], width, self.pos[_POS_H]+width))
-            self.pos[_POS_H] += width * self.scale
+            self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
-- 
2.43.0


From 8307bac311762c0276f557ea26510ce9e7f15e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 034/101] fix: signed three byte integers are signed

---
 pyx/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 3718d07..8b6cfbf 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -57,7 +57,7 @@ class reader:
         return struct.unpack(">L", self.file.read(4))[0]
 
     def readint24(self):
-        return struct.unpack(">l", b"\0"+self.file.read(3))[0]
+        return struct.unpack(">l", self.file.read(3)+b"\0")[0] >> 8
 
     def readuint24(self):
         return struct.unpack(">L", b"\0"+self.file.read(3))[0]
-- 
2.43.0


From 95eca464fd77a52363c02f09c140a3b214da43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 035/101] fix: vstem3 keeps its operands in the shared command
 instance

---
 pyx/font/t1file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index a5fcd17..6ea1382 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -484,12 +484,12 @@ class _T1vstem3(T1cmd):
         return "vstem3"
 
     def updatepath(self, path, trafo, context):
-        self.x0 = context.t1stack.pop(0)
-        self.dx0 = context.t1stack.pop(0)
-        self.x1 = context.t1stack.pop(0)
-        self.dx1 = context.t1stack.pop(0)
-        self.x2 = context.t1stack.pop(0)
-        self.dx2 = context.t1stack.pop(0)
+        x0 = context.t1stack.pop(0)
+        dx0 = context.t1stack.pop(0)
+        x1 = context.t1stack.pop(0)
+        dx1 = context.t1stack.pop(0)
+        x2 = context.t1stack.pop(0)
+        dx2 = context.t1stack.pop(0)
 
 T1vstem3 = _T1vstem3()
 
-- 
2.43.0


From 4225c6845a3a1d4cfd453995b808c780f8df059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 036/101] fix: div of charstrings is a real division

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 6ea1382..e9af80c 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -507,7 +507,7 @@ class _T1div(T1cmd):
     def updatepath(self, path, trafo, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1/num2)
 
     def gathercalls(self, seacglyphs, subrs, context):
         num2 = context.t1stack.pop()
-- 
2.43.0


From a76e823419c53f3b964e32369d61b34b4cae8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 037/101] fix: smallest number in charstrings

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index e9af80c..dbe0eef 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -809,7 +809,7 @@ class T1File:
                 cmds.append(-((x - 251)*256) - code.pop(0) - 108)
             else: # x = 255, i.e. full size ints
                 y = ((code.pop(0)*256+code.pop(0))*256+code.pop(0))*256+code.pop(0)
-                if y > (1 << 31):
+                if y >= (1 << 31):
                     cmds.append(y - (1 << 32))
                 else:
                     cmds.append(y)
-- 
2.43.0


From 793516f076f67b899da766f586cc327b3a4b645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 038/101] fix: accent position and width of composed characters

---
 pyx/font/t1file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index dbe0eef..f0b2d08 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -183,9 +183,13 @@ class _T1seac(T1cmd):
         achar = context.t1stack.pop(0)
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
+        # the accent is placed relative to the left sidebearing of the composite
+        adx += context.x
+        wx, wy = context.wx, context.wy
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
         atrafo = atrafo * trafo.translate_pt(adx-sab, ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
+        context.wx, context.wy = wx, wy
 
     def gathercalls(self, seacglyphs, subrs, context):
         achar = context.t1stack.pop()
-- 
2.43.0


From 77de244f6d8c801d954e18327eda3f8560e7a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 039/101] fix: comments in binary PostScript data

---
 pyx/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 8b6cfbf..38b1339 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -135,7 +135,7 @@ class PStokenizer:
         while self.data[self.pos] in self.tokenseps:
             self.pos += 1
         # ignore comments including subsequent whitespace characters
-        while self.data[self.pos] == self.commentchar:
+        while self.data[self.pos] in self.commentchar:
             while self.data[self.pos] not in self.newlinechars:
                 self.pos += 1
             while self.data[self.pos] in self.tokenseps:
-- 
2.43.0


From 419ee80cd560f30822b25732427a47d174d95d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 040/101] fix: reading of PFA fonts

---
 pyx/font/t1file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index f0b2d08..179a4e1 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1167,13 +1167,13 @@ class T1File:
     def from_PFA_bytes(cls, bytes):
         """create a T1File instance from a string of bytes corresponding to a PFA file"""
         try:
-            m1 = bytes.index("eexec") + 6
-            m2 = bytes.index("0"*40)
+            m1 = bytes.index(b"eexec") + 6
+            m2 = bytes.index(b"0"*40)
         except ValueError:
            raise FontFormatError
 
         data1 = bytes[:m1].decode("ascii", errors="surrogateescape")
-        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(" ", "").replace("\r", "").replace("\n", ""))
+        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(b" ", b"").replace(b"\r", b"").replace(b"\n", b""))
         data3 = bytes[m2:].decode("ascii", errors="surrogateescape")
         return cls(data1, data2eexec, data3)
 
-- 
2.43.0


From dbc67cc815dd9a7260829e50b4dd78f50afd5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 041/101] fix: writing of PFB fonts

---
 pyx/font/t1file.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 179a4e1..3e8d3b2 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1120,17 +1120,19 @@ class T1File:
             l, x1 = divmod(l, 256)
             l, x2 = divmod(l, 256)
             x4, x3 = divmod(l, 256)
-            return chr(x1) + chr(x2) + chr(x3) + chr(x4)
-        file.write("\200\1")
-        file.write(pfblength(self.data1))
-        file.write(self.data1)
-        file.write("\200\2")
-        file.write(pfblength(data2eexec))
-        file.write(data2eexec)
-        file.write("\200\1")
-        file.write(pfblength(self.data3))
-        file.write(self.data3)
-        file.write("\200\3")
+            return bytes([x1, x2, x3, x4])
+        data1 = self.data1.encode("ascii", errors="surrogateescape")
+        data3 = self.data3.encode("ascii", errors="surrogateescape")
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(data1))
+        file.write_bytes(data1)
+        file.write_bytes(b"\200\2")
+        file.write_bytes(pfblength(data2eexec))
+        file.write_bytes(data2eexec)
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(data3))
+        file.write_bytes(data3)
+        file.write_bytes(b"\200\3")
 
     def outputPS(self, file, writer):
         """output the PostScript code for the T1File to the file file"""
-- 
2.43.0


From 9a5e6d95307d8e9d7c011fd2ff8943e65479d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 042/101] fix: getdata2 of fonts not yet decoded

---
 pyx/font/t1file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 3e8d3b2..446bdb1 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -932,6 +932,9 @@ class T1File:
         glyphs is a dict containing those glyph names as keys,
         which are to be contained in the charstringsstring to be created.
         If glyphs is None, all glyphs in self.glyphs will be used."""
+        if not self._data2:
+            self._data2decode()
+
         w = writer.writer(io.BytesIO())
 
         def addsubrs(subrs):
-- 
2.43.0


From 7f1c80c3af7bba8e4421d06846c3143aea7998a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 043/101] fix: charstring encoding for lenIV larger than 4

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 446bdb1..dd221c2 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -683,7 +683,7 @@ class T1File:
 
     def _charstringencode(self, data):
         """eexec encoding of data"""
-        return encoder(data, self.charstringr, b"PyX!"[:self.lenIV])
+        return encoder(data, self.charstringr, b"PyX!".ljust(self.lenIV, b"!")[:self.lenIV])
 
     def _encoding(self):
         """helper method to lookup the encoding in the font"""
-- 
2.43.0


From 5c9351ad612513c038af92b9104820e9fcbad9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 044/101] fix: no overflow of signed integers in the C cipher

---
 pyx/font/_t1code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/_t1code.c b/pyx/font/_t1code.c
index eacb3fa..f83807d 100644
--- a/pyx/font/_t1code.c
+++ b/pyx/font/_t1code.c
@@ -16,8 +16,8 @@
 #include <stdlib.h>
 #include <stdint.h>
 
-#define C1 52845
-#define C2 22719
+#define C1 52845u
+#define C2 22719u
 
 /* 
 def decoder(code, r, n):
-- 
2.43.0


From f89cf5a1e4d18969fda15e81d53a9236d8bf0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 045/101] fix: decoding of data shorter than the number of
 bytes to be removed in C

---
 pyx/font/_t1code.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/font/_t1code.c b/pyx/font/_t1code.c
index f83807d..11cfce2 100644
--- a/pyx/font/_t1code.c
+++ b/pyx/font/_t1code.c
@@ -54,6 +54,8 @@ static PyObject *py_decoder(PyObject *self, PyObject *args)
       }
 
       /* convert result to string stripping first n chars */
+      if (n > lcode)
+          n = (int) lcode;
       result = PyBytes_FromStringAndSize((const char *)data + n, lcode - n);
       free(data);
       return result;
-- 
2.43.0


From df2259b96d6ed276d1ef2765f4f2a80c2e8d145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 046/101] fix: write the fill and stroke styles before the path
 in PDF

---
 pyx/deco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..3092db0 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -235,7 +235,6 @@ class decoratedpath(baseclasses.canvasitem):
             _writestyles(self.styles, context, registry)
 
         if self.fillstyles is not None:
-            fillpath.outputPDF(file, writer)
 
             if self.strokestyles is not None and strokepath is fillpath:
                 # do efficient stroking + filling
@@ -247,6 +246,9 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
+                # the path must not be started before the styles are written,
+                # as these operators are not allowed within a path object
+                fillpath.outputPDF(file, writer)
                 if context.fillrule:
                     file.write("B*\n")
                 else:
@@ -261,6 +263,7 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("q\n") # gsave
                     _writefillstyles(self.fillstyles, context(), registry)
 
+                fillpath.outputPDF(file, writer)
                 if context.fillrule:
                     file.write("f*\n")
                 else:
-- 
2.43.0


From 76785b6c5736c498279a9713370991cbba6b280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 047/101] fix: respect a fill rule given as attribute of
 deco.filled

---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 3092db0..c913d0d 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                fillcontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, fillcontext, registry)
 
-                if context.fillrule:
+                if fillcontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                fillcontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, fillcontext, registry)
 
-                if context.fillrule:
+                if fillcontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -249,7 +251,7 @@ class decoratedpath(baseclasses.canvasitem):
                 # the path must not be started before the styles are written,
                 # as these operators are not allowed within a path object
                 fillpath.outputPDF(file, writer)
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -259,12 +261,13 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                fillcontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, fillcontext, registry)
 
                 fillpath.outputPDF(file, writer)
-                if context.fillrule:
+                if fillcontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From 6468b1507f993e8a55a09d4507bcf8a2d73f8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 048/101] fix: draw the stroke on top of the filling in SVG,
 keeping the styles of both separate

---
 pyx/deco.py | 80 ++++++++++++++++++++++-------------------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index c913d0d..382057c 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -323,57 +323,43 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
-        if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
-            if self.fillstyles is not None:
-                attrs = {"d": fillpath.returnSVGdata()}
-                _writefillstyles(attrs, acontext)
-                attrs["fill"] = acontext.fillcolor
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += fillpath.bbox()
-        else:
+        if self.fillstyles is not None:
+            fillcontext = acontext()
+            fillattrs = {}
+            _writefillstyles(fillattrs, fillcontext)
+            fillattrs["fill"] = fillcontext.fillcolor
+            if fillcontext.fillopacity != 1:
+                fillattrs["opacity"] = "%f" % fillcontext.fillopacity
+        if self.strokestyles is not None:
+            strokecontext = acontext()
+            strokeattrs = {}
+            _writestrokestyles(strokeattrs, strokecontext)
+            strokeattrs["stroke"] = strokecontext.strokecolor
+            if strokecontext.strokeopacity != 1:
+                strokeattrs["opacity"] = "%f" % strokecontext.strokeopacity
+
+        if (self.fillstyles is not None and self.strokestyles is not None and strokepath is fillpath and
+            strokecontext.strokeopacity == fillcontext.fillopacity):
+            # do efficient stroking + filling
             attrs = {"d": fillpath.returnSVGdata()}
-            _writestrokestyles(attrs, acontext)
-            _writefillstyles(attrs, acontext)
-            if self.strokestyles is not None:
-                attrs["stroke"] = acontext.strokecolor
+            attrs.update(fillattrs)
+            attrs.update(strokeattrs)
+            xml.startSVGElement("path", attrs)
+            xml.endSVGElement("path")
+        else:
+            # the stroke is drawn on top of the filling as for the other formats
             if self.fillstyles is not None:
-                attrs["fill"] = acontext.fillcolor
-            if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                attrs["stroke"] = "none"
-                attrs["fill"] = acontext.fillcolor
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-            else:
-                if acontext.strokeopacity != 1 and self.strokestyles is not None:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                if acontext.fillopacity != 1 and self.fillstyles is not None:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                xml.startSVGElement("path", attrs)
+                fillattrs["d"] = fillpath.returnSVGdata()
+                xml.startSVGElement("path", fillattrs)
                 xml.endSVGElement("path")
             if self.strokestyles is not None:
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
-            else:
-                bbox += strokepath.bbox()
+                strokeattrs["d"] = strokepath.returnSVGdata()
+                xml.startSVGElement("path", strokeattrs)
+                xml.endSVGElement("path")
+        if self.fillstyles is not None:
+            bbox += fillpath.bbox()
+        if self.strokestyles is not None:
+            bbox += strokepath.bbox().enlarged_pt(0.5*strokecontext.linewidth_pt)
 
         self.ornaments.processSVG(xml, writer, acontext, registry, bbox)
 
-- 
2.43.0


From d63349b5826daf2757215f734454cc71cb757160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 049/101] fix: scale the font matrix of slanted builtin fonts
 in PostScript

---
 pyx/font/font.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..2305364 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -563,6 +563,9 @@ class T1text_pt(text_pt):
                 newfontmatrix = trafo.trafo_pt(matrix=((1, self.slant), (0, 1)))
                 if self.font.t1file is not None:
                     newfontmatrix = newfontmatrix * self.font.t1file.fontmatrix
+                else:
+                    # the common font matrix of Type 1 fonts
+                    newfontmatrix = newfontmatrix * trafo.trafo_pt(matrix=((0.001, 0), (0, 0.001)))
                 newfontname = "%s-slant%f" % (fontname, self.slant)
                 registry.add(_ChangeFontMatrix)
                 registry.add(PSchangefontmatrix(fontname, newfontname, newfontmatrix))
-- 
2.43.0


From b82ba02c8f14106299aa14f902089b39204f5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 050/101] fix: output slanted text in SVG

---
 pyx/font/font.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 2305364..05c2e40 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -734,7 +734,8 @@ class T1text_pt(text_pt):
             if context.fillopacity:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                # slant around the origin of the text
+                trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)).processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From 488375bbdbbf61cefaf92340a684ad5a671a46e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 051/101] fix: output fully transparent text in SVG as such

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 05c2e40..19c4c98 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -731,7 +731,7 @@ class T1text_pt(text_pt):
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
                      "fill": context.fillcolor}
-            if context.fillopacity:
+            if context.fillopacity != 1:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
                 # slant around the origin of the text
-- 
2.43.0


From 47a158cb17329750b061602b7dba5eb12b4ab658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 052/101] fix: write text of builtin fonts within a text object
 in PDF when textaspath is set

---
 pyx/font/font.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 19c4c98..1b69f5e 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -651,6 +651,10 @@ class T1text_pt(text_pt):
             else:
                 slantvalue = self.slant
 
+            # canvases do not open a text region when text is written as a path
+            if writer.textaspath:
+                file.write("BT\n")
+
             # select font if necessary
             sf = selectedfont(fontname, self.size_pt)
             if context.selectedfont is None or sf != context.selectedfont:
@@ -692,6 +696,10 @@ class T1text_pt(text_pt):
             else:
                 file.write(") Tj\n")
 
+            if writer.textaspath:
+                file.write("ET\n")
+                context.selectedfont = None
+
     def processSVG(self, xml, writer, context, registry, bbox):
         if not self.ignorebbox:
             bbox += self.bbox()
-- 
2.43.0


From 83976b0738ac6fe7e171e85079ac6f2599d2bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 053/101] fix: slanted text was written upright when written as
 a path

---
 pyx/font/font.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 1b69f5e..efd5ec6 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -532,6 +532,9 @@ class T1text_pt(text_pt):
                     self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
+            if self.slant:
+                # slant around the origin of the text
+                self._textpath = self._textpath.transformed(trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)))
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
-- 
2.43.0


From 0c121a36cf3e3facd22af94c33c374386a4ef581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 054/101] fix: PDF images with the same data got the same name
 in spite of different size, palette or alpha channel

---
 pyx/bitmap.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..30c2e44 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -430,7 +430,16 @@ class bitmap_trafo(baseclasses.canvasitem):
             else:
                 alpha = alpha.tobytes()
 
-        imagehash = hashlib.sha1(data).hexdigest()[0:15]
+        # all that determines the image becomes part of its identity
+        imagehash = hashlib.sha1(("%s %dx%d %s" % (mode, self.imagewidth, self.imageheight, palettemode)).encode("ascii"))
+        imagehash.update(data)
+        if palettedata is not None:
+            imagehash.update(b" palette ")
+            imagehash.update(palettedata)
+        if alpha and not interleavealpha:
+            imagehash.update(b" alpha ")
+            imagehash.update(alpha)
+        imagehash = imagehash.hexdigest()[0:15]
 
         return mode, data, alpha, palettemode, palettedata, imagehash
 
-- 
2.43.0


From a054ca102e0111ac8845cf95aeb457a5cdd9d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 055/101] fix: bitmaps did not extend the bounding box in SVG
 output

---
 pyx/bitmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 30c2e44..1e6bb3c 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -578,6 +578,8 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             raise ValueError("SVG cannot store uncompressed image data.")
         attrs = {"preserveAspectRatio": "none", "x": "0", "y": "-1", "width": "1", "height": "1", "xlink:href": inlinedata}
+        bbox += self.bbox()
+
         self.pdftrafo.processSVGattrs(attrs, writer, context, registry)
         xml.startSVGElement("image", attrs)
         xml.endSVGElement("image")
-- 
2.43.0


From 7484435e2299bdf22dbd32c40c85e341fdee9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 056/101] fix: hexadecimal image data could not be written
 (PSbinexpand=2)

---
 pyx/bitmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 1e6bb3c..e315ef2 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -84,12 +84,12 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range((len(hexdata)-1)//_asciihexlinelength + 1):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
@@ -234,7 +234,7 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
                         ascii85lines(datalen-tailpos)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
-- 
2.43.0


From 47d83b9e909ac7d45e47405e2f71bab1477f4d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 057/101] fix: number of lines announced for hexadecimal image
 data

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index e315ef2..acf651a 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -533,7 +533,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From 2347925bfe92416f96c341ececdfcb8366f9599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 058/101] fix: transparency of bitmaps in SVG output

---
 pyx/bitmap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index acf651a..6c3e57f 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -578,6 +578,9 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             raise ValueError("SVG cannot store uncompressed image data.")
         attrs = {"preserveAspectRatio": "none", "x": "0", "y": "-1", "width": "1", "height": "1", "xlink:href": inlinedata}
+        if context.fillopacity != 1:
+            attrs["opacity"] = "%f" % context.fillopacity
+
         bbox += self.bbox()
 
         self.pdftrafo.processSVGattrs(attrs, writer, context, registry)
-- 
2.43.0


From 9d0f74274856efc8d4af3a48c0318ef76946c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 059/101] fix: font selected within a canvas without attributes
 in PS output

---
 pyx/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 75f4dbc..4bba419 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -192,9 +192,9 @@ class canvas(baseclasses.canvasitem):
         return obbox
 
     def processPS(self, file, writer, context, registry, bbox):
-        context = context()
         if self.items:
             if self.modifies_state:
+                context = context()
                 file.write("gsave\n")
                 for attr in self.styles:
                     attr.processPS(file, writer, context, registry)
-- 
2.43.0


From 277fc34a14c288090ff227fea1ff5eeecd14dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 060/101] fix: mixing of text and binary data when reading EPS
 files

---
 pyx/epsfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c6c663a..df3f3cb 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -102,7 +102,7 @@ class linefilereader:
             if EOFmsg is not None and not len(self.buffer):
                 raise IOError(EOFmsg)
             result = self.buffer
-            self.buffer = ""
+            self.buffer = b""
             return result
 
     def readline(self, EOFmsg="unexpected end of file"):
@@ -152,7 +152,7 @@ def _readbbox(file):
             break
         if line.startswith(b"%%BoundingBox:") and not bboxatend:
             values = line.split(b":", 1)[1].split()
-            if values == ["(atend)"]:
+            if values == [b"(atend)"]:
                 bboxatend = 1
             else:
                 if len(values) != 4:
@@ -170,7 +170,7 @@ def _readbbox(file):
     while True:
         line = file.readline()
         if line.startswith(b"%%BeginData:"):
-            values = line.split(":", 1)[1].split()
+            values = line.split(b":", 1)[1].split()
             if len(values) > 3:
                 raise IOError("invalid number of arguments")
             if len(values) == 3:
@@ -185,12 +185,12 @@ def _readbbox(file):
                 file.read(int(values[0]))
             line = file.readline()
             # ignore tailing whitespace/newline for binary data
-            if (len(values) < 3 or values[2] != "Lines") and not len(line.strip()):
+            if (len(values) < 3 or values[2] != b"Lines") and not len(line.strip()):
                 line = file.readline()
             if line.rstrip() != b"%%EndData":
                 raise IOError("missing EndData")
         elif line.startswith(b"%%BeginBinary:"):
-            file.read(int(line.split(":", 1)[1]))
+            file.read(int(line.split(b":", 1)[1]))
             line = file.readline()
             # ignore tailing whitespace/newline
             if not len(line.strip()):
@@ -211,7 +211,7 @@ def _readbbox(file):
     line = True
     while line:
         line = file.readline(EOFmsg=None)
-        if line.startswith("%%BoundingBox:"):
+        if line.startswith(b"%%BoundingBox:"):
             values = line.split(b":", 1)[1].split()
             if len(values) != 4:
                 raise IOError("invalid number of bounding box values")
-- 
2.43.0


From cd3f09892cd1d5a8ed260b9809fdefeae77c6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 061/101] fix: text fields on canvases with fill styles

---
 pyx/pdfextra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..2b27030 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -244,7 +244,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From 80cefc7c06d5dff2afc88081f595a6cce39d899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 062/101] fix: button states identified by addresses of
 temporary objects

---
 pyx/pdfextra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 2b27030..94b27a1 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -533,7 +533,7 @@ class PDFButtonState(pdfwriter.PDFobject): # <<<
     def __init__(self, writer, registry, fontsize, font, bgchar, fgchar,
         bgscale=None, bgrelshift=None, fgscale=None, fgrelshift=None):
 
-        super().__init__("buttonstate", _id="buttonstate" + "_".join(map(str, list(map(id, [fontsize, font, bgchar, fgchar, bgscale, bgrelshift, fgscale, fgrelshift])))))
+        super().__init__("buttonstate", _id="buttonstate" + "_".join(map(str, [fontsize, id(font), bgchar, fgchar, bgscale, bgrelshift, fgscale, fgrelshift])))
         self.font = font
         self.fontsize = fontsize
         registry.addresource("Font", self.font.name, self.font, procset="Text")
-- 
2.43.0


From 797d33844055898fa3c004c68aa9c478d92aace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 063/101] fix: colour space of patterns in PDF

---
 pyx/pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..8b7f2e6 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -148,15 +148,14 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
                                 patternbbox, xstep, ystep, patterntrafo, patternproc, writer, registry, patternregistry))
 
         # activate pattern
-        if context.colorspace != "Pattern":
-            # we only set the fill color space (see next comment)
-            file.write("/Pattern cs\n")
-            context.colorspace = "Pattern"
         if context.strokeattr:
             # using patterns as stroke colors doesn't seem to work, so
             # we just don't do this...
             logger.warning("ignoring stroke color for patterns in PDF")
         if context.fillattr:
+            # we only set the fill color space (see previous comment); colors
+            # change the color space, hence it needs to be set each time
+            file.write("/Pattern cs\n")
             file.write("/%s scn\n"% self.id)
 
     def processSVGattrs(self, attrs, writer, context, registry):
-- 
2.43.0


From 806e192a39ee8d33313302b999f97836c9ed9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 064/101] fix: fill styles of a canvas leaking to other
 canvases in PDF

---
 pyx/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 4bba419..94feeed 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -222,7 +222,7 @@ class canvas(baseclasses.canvasitem):
                 file.write("q\n") # gsave
                 for attr in self.styles:
                     if isinstance(attr, style.fillstyle):
-                        context.fillstyles.append(attr)
+                        context.fillstyles = context.fillstyles + [attr]
                     attr.processPDF(file, writer, context, registry)
                 if self.clip is not None:
                     self.clip.processPDF(file, writer, context, registry)
-- 
2.43.0


From 9dd4ebb980bb41a5ef0c57c44040f1fface3cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 065/101] fix: strings in PDF files

---
 pyx/pdfextra.py  | 30 +++++++++++++++---------------
 pyx/pdfwriter.py | 23 ++++++++++++++---------
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 94b27a1..26ea86d 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -264,11 +264,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -314,9 +314,9 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, pdfwriter.pdfstring(self.texts[0])))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" (%s)'" % pdfwriter.pdfstring(text))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,9 +479,9 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
         file.write("/V /%s\n" % self.defaultvalue)
         file.write(">>\n")
@@ -686,11 +686,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +698,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" (%s)" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..f5139d1 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -33,6 +33,20 @@ from . import bbox, config, style, unit, version, trafo, writer
 
 
 
+def pdfstring(s):
+    """content of a PDF text string, to be written in parentheses"""
+    if any(ord(c) > 255 for c in s):
+        # not contained in PDFDocEncoding
+        s = (b"\xfe\xff" + s.encode("utf-16-be")).decode("latin-1")
+    r = ""
+    for c in s:
+        if 32 <= ord(c) < 127 and c not in "()[]<>\\":
+            r += c
+        else:
+            r += "\\%03o" % ord(c)
+    return r
+
+
 class PDFregistry:
 
     def __init__(self):
@@ -181,15 +195,6 @@ class PDFinfo(PDFobject):
                 timezone = "Z00'00'"
             creation_date = time.localtime()
 
-        def pdfstring(s):
-            r = ""
-            for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
-                    r += c
-                else:
-                    r += "\\%03o" % ord(c)
-            return r
-
         file.write("<<\n")
         if writer.title:
             file.write("/Title (%s)\n" % pdfstring(writer.title))
-- 
2.43.0


From 1b6e468adc92ed61bf8bd798a807ab9f7014e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 066/101] fix: sign of the time zone in PDF files

---
 pyx/pdfwriter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index f5139d1..9dbd9d2 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -186,11 +186,12 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
+            # time.timezone is positive west of UTC
             if time.timezone < 0:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
+                timezone = "+%02i'%02i'" % divmod(-time.timezone/60, 60)
             elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "-%02i'%02i'" % divmod(time.timezone/60, 60)
             else:
                 timezone = "Z00'00'"
             creation_date = time.localtime()
-- 
2.43.0


From d3712d43c541fc0de6170cc1f683adc2065e7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 067/101] fix: annotations of PDF pages

---
 pyx/pdfextra.py  | 6 +++---
 pyx/pdfwriter.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 26ea86d..7fb0cfa 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -210,7 +210,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
         # append this formfield to the global document form
         # and to the annotation list of the page:
         registry.add(pdfwriter.PDFform([self]))
-        registry.add(pdfwriter.PDFannotations([self]))
+        registry.add(pdfwriter.PDFannotations([self], registry))
 
         self.name = name
         self.bb_pt = bb_pt
@@ -495,7 +495,7 @@ class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
         # we treat this as an annotation only, since the parent is
         # already in the form field
 
-        registry.add(pdfwriter.PDFannotations([self]))
+        registry.add(pdfwriter.PDFannotations([self], registry))
 
         self.bb_pt = (pos_pt[0], pos_pt[1], pos_pt[0] + size_pt, pos_pt[1] + size_pt)
         self.name = name
@@ -656,7 +656,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         # append this formfield to the global document form
         # and to the annotation list of the page:
         registry.add(pdfwriter.PDFform([self]))
-        registry.add(pdfwriter.PDFannotations([self]))
+        registry.add(pdfwriter.PDFannotations([self], registry))
 
         self.name = name
         self.bb_pt = bb_pt
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 9dbd9d2..0e2626d 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -213,8 +213,9 @@ class PDFinfo(PDFobject):
 
 class PDFannotations(PDFobject):
 
-    def __init__(self, annots):
-        PDFobject.__init__(self, "annotations", _id="annotations")
+    def __init__(self, annots, registry):
+        # the annotations of a page are identified by the registry of the page
+        PDFobject.__init__(self, registry, _id="annotations")
         self.annots = annots
 
     def merge(self, other):
@@ -303,7 +304,7 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
+        pdfannotations = PDFannotations([], self.pageregistry)
         if pdfannotations in registry:
             file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
-- 
2.43.0


From e9b0ab0995fee8be0aa85e5351cf0991c3b91056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 068/101] fix: undefined names in the writers

---
 pyx/pdfwriter.py |  6 +++---
 pyx/pswriter.py  | 11 +++++++----
 pyx/svgwriter.py | 16 +++++++++-------
 pyx/text.py      |  8 ++++----
 4 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 0e2626d..4b1a689 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -325,7 +325,7 @@ class PDFcontent(PDFobject):
 
     def write(self, file, awriter, registry):
         if awriter.compress:
-            content = zlib.compress(self.content)
+            content = zlib.compress(self.content, awriter.compresslevel)
         else:
             content = self.content
         file.write("<<\n"
@@ -368,11 +368,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..b56d687 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,9 +20,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, logging, time, math, os
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 
 class PSregistry:
 
@@ -43,7 +45,7 @@ class PSregistry:
            self.resourceslist.append(resource)
 
     def mergeregistry(self, registry):
-        for resource in registry.resources:
+        for resource in registry.resourceslist:
             self.add(resource)
 
     def output(self, file, writer):
@@ -110,11 +112,12 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..1c91040 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,9 +19,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
 from . import bbox, config, style, version, unit, trafo
 
+logger = logging.getLogger("pyx")
+
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
 
@@ -44,7 +46,7 @@ class SVGregistry:
            self.resourceslist.append(resource)
 
     def mergeregistry(self, registry):
-        for resource in registry.resources:
+        for resource in registry.resourceslist:
             self.add(resource)
 
     def output(self, xml, writer):
@@ -107,20 +109,20 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
 
     def startDocument(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use startSVGDocument")
+            raise NotImplementedError("use startSVGDocument")
 
     def endDocument(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use endSVGDocument")
+            raise NotImplementedError("use endSVGDocument")
 
     def startElementNS(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use startSVGElement")
+            raise NotImplementedError("use startSVGElement")
         super().startElementNS(*args, **kwargs)
 
     def endElementNS(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use endSVGElement")
+            raise NotImplementedError("use endSVGElement")
         super().endElementNS(*args, **kwargs)
 
     def startSVGDocument(self):
@@ -183,7 +185,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/text.py b/pyx/text.py
index fb36bb4..71435cb 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1734,10 +1734,10 @@ class UnicodeEngine:
         self.size = size
 
     def preamble(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def reset(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def text_pt(self, x_pt, y_pt, text, textattrs=[], texmessages=[], fontmap=None, singlecharmode=False):
 
@@ -1771,10 +1771,10 @@ class UnicodeEngine:
 #         self.size = size
 # 
 #     def preamble(self):
-#         raise NotImplemented()
+#         raise NotImplementedError()
 # 
 #     def reset(self):
-#         raise NotImplemented()
+#         raise NotImplementedError()
 # 
 #     def text_pt(self, x_pt, y_pt, text, textattrs=[], texmessages=[], fontmap=None, singlecharmode=False):
 #     # def text_pt(self, x_pt, y_pt, text, *args, **kwargs):
-- 
2.43.0


From 9a87ad9308cf588ca8863e0aef626b263ad266aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 069/101] fix: order of glyphs depending on the hash seed

---
 pyx/font/font.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index efd5ec6..47ab82d 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -51,9 +51,9 @@ class PST1file(pswriter.PSresource):
         file.write("%%%%BeginFont: %s\n" % self.t1file.name)
         if writer.stripfonts:
             if self.glyphnames:
-                file.write("%%Included glyphs: %s\n" % " ".join(self.glyphnames))
+                file.write("%%Included glyphs: %s\n" % " ".join(sorted(self.glyphnames)))
             if self.charcodes:
-                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in self.charcodes]))
+                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in sorted(self.charcodes)]))
             self.t1file.getstrippedfont(self.glyphnames, self.charcodes).outputPS(file, writer)
         else:
             self.t1file.outputPS(file, writer)
@@ -490,7 +490,8 @@ class T1text_pt(text_pt):
         """returns the name of the encoding (in encodings) mapping self.glyphnames to codepoints
         If no such encoding can be found or extended, a new encoding is added to encodings
         """
-        glyphnames = set(self.glyphnames)
+        # keep the order, the encoding depends on it
+        glyphnames = list(dict.fromkeys(self.glyphnames))
         if len(glyphnames) > 256:
             raise ValueError("glyphs do not fit into one single encoding")
         for encodingname, encoding in list(encodings.items()):
-- 
2.43.0


From f12077bfed037b215e92cad9047fc26f392d5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 070/101] fix: names of patterns, meshes and clips depending on
 memory addresses

---
 pyx/canvas.py  | 10 +++++++---
 pyx/mesh.py    | 11 +++++++----
 pyx/pattern.py |  7 +++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 94feeed..73bf31f 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -56,8 +56,8 @@ def _wrappedindocument(method):
 
 class SVGclippath(svgwriter.SVGresource):
 
-    def __init__(self, path):
-        self.svgid = "clippath%d" % id(path)
+    def __init__(self, svgid, path):
+        self.svgid = svgid
         super().__init__("clip-path", self.svgid)
         self.path = path
 
@@ -73,8 +73,12 @@ class clip(attr.attr):
 
     """class for use in canvas constructor which clips to a path"""
 
+    numberclips = 0 # count instances to get ids which are unique, but do not vary between runs
+
     def __init__(self, path):
         """construct a clip instance for a given path"""
+        clip.numberclips += 1
+        self.id = "clippath%d" % clip.numberclips
         self.path = path
 
     def processPS(self, file, writer, context, registry):
@@ -87,7 +91,7 @@ class clip(attr.attr):
         file.write("W n\n")
 
     def processSVGattrs(self, attrs, writer, context, registry):
-        clippath = SVGclippath(self.path)
+        clippath = SVGclippath(self.id, self.path)
         registry.add(clippath)
         attrs["clip-path"] = "url(#%s)" % clippath.svgid
 
diff --git a/pyx/mesh.py b/pyx/mesh.py
index e688f16..e562932 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -76,7 +76,11 @@ class PDFGenericResource(pdfwriter.PDFobject):
 
 class mesh(baseclasses.canvasitem):
 
+    numbermeshes = 0 # count instances to get ids which are unique, but do not vary between runs
+
     def __init__(self, elements, check=1):
+        mesh.numbermeshes += 1
+        self.id = "shading-%d" % mesh.numbermeshes
         self.elements = elements
         if check:
             colorspacestring = ""
@@ -160,8 +164,7 @@ class mesh(baseclasses.canvasitem):
                 d = zlib.compress(d)
             else:
                 filter = ""
-            name = "shading-%s" % id(self)
-            shading = PDFGenericResource("shading", name, ("""<<
+            shading = PDFGenericResource("shading", self.id, ("""<<
 /ShadingType 4
 /ColorSpace %s
 /BitsPerCoordinate 24
@@ -176,8 +179,8 @@ stream
                   " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()]),
                   len(d), filter)).encode('ascii') + d + b"\nendstream\n")
             registry.add(shading)
-            registry.addresource("Shading", name, shading)
-            file.write("/%s sh\n" % name)
+            registry.addresource("Shading", self.id, shading)
+            file.write("/%s sh\n" % self.id)
 
     def processSVG(self, xml, writer, context, registry, bbox):
         from pyx import bitmap, canvas
diff --git a/pyx/pattern.py b/pyx/pattern.py
index 8b7f2e6..90a7734 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -33,12 +33,15 @@ class _marker: pass
 
 class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
 
+    numberpatterns = 0 # count instances to get ids which are unique, but do not vary between runs
+
     def __init__(self, painttype=1, tilingtype=1, xstep=None, ystep=None,
                  bbox=None, trafo=None, bboxenlarge=None, **kwargs):
         kwargs['attrs'] = attr.mergeattrs([style.linewidth.normal] + kwargs.get('attrs', []))
         canvas.canvas.__init__(self, **kwargs)
         attr.exclusiveattr.__init__(self, pattern)
-        self.id = "pattern%d" % id(self)
+        pattern.numberpatterns += 1
+        self.id = "pattern%d" % pattern.numberpatterns
         self.patterntype = 1
         if painttype not in (1, 2):
             raise ValueError("painttype must be 1 or 2")
@@ -357,7 +360,7 @@ class PDFpattern(pdfwriter.PDFobject):
 class SVGpattern(svgwriter.SVGresource):
 
     def __init__(self, pattern):
-        self.svgid = "pattern%d" % id(pattern)
+        self.svgid = pattern.id
         super().__init__("pattern", self.svgid)
         self.pattern = pattern
 
-- 
2.43.0


From c90e80270ffa2ee483578587e6153331d84515a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 071/101] fix: calling partitioners

---
 pyx/graph/axis/parter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 2812e35..79187b5 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -22,6 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import math
+from pyx import utils
 from pyx.graph.axis import tick
 
 
@@ -66,6 +67,8 @@ class linear(_parter):
     """partitioner to create a single linear partition"""
 
     def __init__(self, tickdists=None, labeldists=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickdists = tickdists
+        self.labeldists = labeldists
         if tickdists is None and labeldists is not None:
             self.ticklist = [tick.rational(labeldists[0])]
         else:
@@ -211,6 +214,8 @@ class logarithmic(linear):
     #  ^- we always include 1 in order to get extendto(tick|label)level to work as expected
 
     def __init__(self, tickpreexps=None, labelpreexps=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickpreexps = tickpreexps
+        self.labelpreexps = labelpreexps
         if tickpreexps is None and labelpreexps is not None:
             self.ticklist = [labelpreexps[0]]
         else:
-- 
2.43.0


From d999e00009c408f6c4ebb0400ba5c164e6c9a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 072/101] fix: calling rational texters

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index c9ba480..7dcba41 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -345,7 +345,7 @@ class rational(_texter):
         return rational(**utils.merge_members_kwargs(self, [kwargs],
                                                     ["prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix",
                                                      "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos",
-                                                     "over", "equaldenom", "skip1", "skipnum0", "skinum1", "skipdenom1", "labelattrs"]))
+                                                     "over", "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs"]))
 
     def gcd(self, *n):
         """returns the greates common divisor of all elements in n
-- 
2.43.0


From 332ceab76a374cdd29d240152af47baa70b9ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 073/101] fix: parameters exponenttexter_* and minnegexponent
 of the default texter

---
 pyx/graph/axis/texter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 7dcba41..280a298 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -184,7 +184,7 @@ class default(_texter):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
         if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
         if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: texter = decimal(**split_kwargs["exponenttexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
@@ -198,12 +198,12 @@ class default(_texter):
         self.mantissatexter = mantissatexter
         self.basetexter = basetexter
         self.exponenttexter = exponenttexter
-        self.kwargs = kwargs
+        self.kwargs = dict(kwargs, minnegexponent=minnegexponent) # None is to be kept
 
     def __call__(self, **kwargs):
         return default(**utils.merge_members_kwargs(self, [self.kwargs, kwargs],
                                                     ["multiplicationtex", "multiplicationunicode", "base", "skipmantissaunity",
-                                                     "minusunity", "minexponent", "minnegexponent", "uniformexponent",
+                                                     "minusunity", "minexponent", "uniformexponent",
                                                      "labelattrs", "mantissatexter", "basetexter", "exponenttexter"]))
 
     def labels(self, ticks):
-- 
2.43.0


From 75e7e4ba95ae1dfe3272db6a407bcbffb7f182d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 074/101] fix: calling a logarithmic axis returns a logarithmic
 axis

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 8a0c6c4..71697ad 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -303,7 +303,7 @@ class logarithmic(_regularaxis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return linear(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
+        return logarithmic(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
 
     def convert(self, data, value):
         """axis coordinates -> graph coordinates"""
-- 
2.43.0


From c3d71a61a668973e2aec3a0bff674c40e09e4063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 075/101] fix: parameters parter_* of auto sized axes

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 71697ad..69a2e54 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -542,7 +542,7 @@ class autosizedlinear(linear):
 
     def __init__(self, parter=parter.autolinear(extendtick=None), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["parter"])
-        if "parter" in split_kwargs: parter = parter.autolinear(**split_kwargs["parter"])
+        if "parter" in split_kwargs: parter = parter(**split_kwargs["parter"])
 
         linear.__init__(self, parter=parter, **rest_kwargs)
 
-- 
2.43.0


From fb54f2f2003a7145e4db0590f1fcc79b9e888f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 076/101] fix: parameters of bar axes in calls

---
 pyx/graph/axis/axis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 69a2e54..28f9f9d 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -369,9 +369,9 @@ class bar(_axis):
                        painter=painter.bar(), linkpainter=painter.linkedbar(), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["defaultsubaxis", "painter", "linkpainter"], allow_only_split=True)
 
-        if "defaultsubaxis" in split_kwargs: defaultsubaxis = linear(**split_kwargs["defaultsubaxis"])
-        if "painter" in split_kwargs: painter = painter.bar(**split_kwargs["painter"])
-        if "linkpainter" in split_kwargs: linkpainter = painter.linkedbar(**split_kwargs["linkpainter"])
+        if "defaultsubaxis" in split_kwargs: defaultsubaxis = defaultsubaxis(**split_kwargs["defaultsubaxis"])
+        if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
+        if "linkpainter" in split_kwargs: linkpainter = linkpainter(**split_kwargs["linkpainter"])
 
         self.subaxes = subaxes
         self.defaultsubaxis = defaultsubaxis
@@ -389,10 +389,11 @@ class bar(_axis):
         self.painter = painter
         self.linkpainter = linkpainter
         self.epsilon = epsilon
-        self.kwargs = kwargs
+        self.kwargs = dict(kwargs, firstdist=firstdist, lastdist=lastdist) # None is to be kept
 
     def __call__(self, **kwargs):
-        return bar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["defaultsubaxis", "painter", "linkpainter"]))
+        return bar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs],
+                                                ["subaxes", "defaultsubaxis", "dist", "title", "reverse", "epsilon", "painter", "linkpainter"]))
 
     def createdata(self, errorname):
         data = axisdata(size=self.firstdist+self.lastdist-self.dist, subaxes={}, names=[])
-- 
2.43.0


From 41cf406eb3b4880b9eba12cdd1e8e34d016c563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 077/101] fix: calling a linkedbar painter returns a linkedbar
 painter

---
 pyx/graph/axis/painter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index 8f55b0d..35a22e1 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -383,6 +383,12 @@ class linkedbar(bar):
     def __init__(self, nameattrs=None, titleattrs=None, **kwargs):
         bar.__init__(self, nameattrs=nameattrs, titleattrs=titleattrs, **kwargs)
 
+    def __call__(self, **kwargs):
+        return linkedbar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs],
+                                                      ["innerticklength", "outerticklength", "tickattrs",
+                                                       "basepathattrs", "namedist", "nameattrs", "namedirection", "namepos",
+                                                       "namehequalize", "namevequalize"]))
+
     def getsubaxis(self, subaxis, name):
         from pyx.graph.axis import linkedaxis
         return linkedaxis(subaxis, name)
-- 
2.43.0


From a8fd4795c52a7a0ea5d8f0344ca12c86393d5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 078/101] fix: parameters painter_* of linked axes

---
 pyx/graph/axis/axis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 28f9f9d..b657933 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -673,10 +673,11 @@ class linkedaxis(anchoredaxis):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["painter"])
         if rest_kwargs:
             raise ValueError("Unknown kwargs '%s' to linkedaxis" % rest_kwargs)
-        if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
+        self.painter_kwargs = split_kwargs.get("painter", {})
+        if self.painter_kwargs and painter is not _marker: painter = painter(**self.painter_kwargs)
         self.painter = painter
         self.linkedto = None
-        self.errorname = errorname
+        self.errorname = self.linkerrorname = errorname
         self.canvas = None
         self.positioner = None
         if linkedaxis:
@@ -684,17 +685,18 @@ class linkedaxis(anchoredaxis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return linkedaxis(linkedaxis=self.linkedto, errorname=self.errorname, **utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["painter"]))
+        return linkedaxis(linkedaxis=self.linkedto, errorname=self.linkerrorname, **utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["painter"]))
 
     def setlinkedaxis(self, linkedaxis):
         assert isinstance(linkedaxis, anchoredaxis), self.errorname
         self.linkedto = linkedaxis
         self.axis = linkedaxis.axis
         self.graphtextengine = self.linkedto.graphtextengine
-        self.errorname = "%s (linked to %s)" % (self.errorname, linkedaxis.errorname)
+        self.errorname = "%s (linked to %s)" % (self.linkerrorname, linkedaxis.errorname)
         self.data = linkedaxis.data
         if self.painter is _marker:
             self.painter = linkedaxis.axis.linkpainter
+            if self.painter_kwargs: self.painter = self.painter(**self.painter_kwargs)
 
     def create(self):
         assert self.linkedto is not None, self.errorname
-- 
2.43.0


From ceee9167b9fd25d4a0c856e20fb25cf1d75afa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 079/101] fix: calling a pattern

---
 pyx/pattern.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index 90a7734..66e495a 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -57,21 +57,29 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
 
     def __call__(self, painttype=_marker, tilingtype=_marker, xstep=_marker, ystep=_marker,
                  bbox=_marker, trafo=_marker, bboxenlarge=_marker):
-        if painttype is not _marker:
+        if painttype is _marker:
             painttype = self.painttype
-        if tilingtype is not _marker:
+        if tilingtype is _marker:
             tilingtype = self.tilingtype
-        if xstep is not _marker:
+        if xstep is _marker:
             xstep = self.xstep
-        if ystep is not _marker:
+        if ystep is _marker:
             ystep = self.ystep
-        if bbox is not _marker:
-            bbox = self.bbox
-        if trafo is not _marker:
-            trafo = self.trafo
-        if bboxenlarge is not _marker:
+        if bbox is _marker:
+            bbox = self.patternbbox
+        if trafo is _marker:
+            trafo = self.patterntrafo
+        if bboxenlarge is _marker:
             bboxenlarge = self.bboxenlarge
-        return pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge)
+        newpattern = pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge, textengine=self.textengine)
+        # take over the canvas (without sharing what is still to be filled in)
+        newpattern.items = self.items[:]
+        newpattern.layers = self.layers.copy()
+        newpattern.trafo = self.trafo
+        newpattern.clip = self.clip
+        newpattern.styles = self.styles
+        newpattern.modifies_state = self.modifies_state
+        return newpattern
 
     def processPS(self, file, writer, context, registry):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
-- 
2.43.0


From 1198743623e4dbe663231a1c5186845a60318b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 080/101] fix: attributes cleared in arrows and hatched
 patterns reappeared in calls

---
 pyx/deco.py    | 6 ++++--
 pyx/pattern.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 382057c..31ede74 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -488,6 +488,7 @@ class arrow(deco, attr.attr):
     """arrow is a decorator which adds an arrow to either side of the path"""
 
     def __init__(self, attrs=[], pos=1, reversed=0, size=_base, angle=45, constriction=0.8):
+        self.givenattrs = attrs
         self.attrs = attr.mergeattrs([style.linestyle.solid, filled] + attrs)
         attr.checkattrs(self.attrs, [deco, style.fillstyle, style.strokestyle])
         self.pos = pos
@@ -510,7 +511,7 @@ class arrow(deco, attr.attr):
 
     def __call__(self, attrs=None, pos=None, reversed=None, size=None, angle=None, constriction=_marker):
         if attrs is None:
-            attrs = self.attrs
+            attrs = self.givenattrs
         if pos is None:
             pos = self.pos
         if reversed is None:
@@ -742,6 +743,7 @@ class linehatched(deco, attr.exclusiveattr, attr.clearclass):
         attr.exclusiveattr.__init__(self, linehatched)
         self.dist = dist
         self.angle = angle
+        self.givenstrokestyles = strokestyles
         self.strokestyles = attr.mergeattrs([style.linewidth.THIN] + strokestyles)
         attr.checkattrs(self.strokestyles, [style.strokestyle])
         self.cross = cross
@@ -752,7 +754,7 @@ class linehatched(deco, attr.exclusiveattr, attr.clearclass):
         if angle is None:
             angle = self.angle
         if strokestyles is None:
-            strokestyles = self.strokestyles
+            strokestyles = self.givenstrokestyles
         if cross is None:
             cross = self.cross
         return linehatched(dist, angle, strokestyles, cross)
diff --git a/pyx/pattern.py b/pyx/pattern.py
index 66e495a..0e6703c 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -193,6 +193,7 @@ _base = 0.1 * unit.v_cm
 class hatched(pattern):
     def __init__(self, dist, angle, strokestyles=[]):
         pattern.__init__(self, painttype=1, tilingtype=1, xstep=dist, ystep=100*unit.t_pt, bbox=None, trafo=trafo.rotate(angle))
+        self.givenstrokestyles = strokestyles
         self.strokestyles = attr.mergeattrs([style.linewidth.THIN] + strokestyles)
         attr.checkattrs(self.strokestyles, [style.strokestyle])
         self.dist = dist
@@ -205,7 +206,7 @@ class hatched(pattern):
         if angle is None:
             angle = self.angle
         if strokestyles is None:
-            strokestyles = self.strokestyles
+            strokestyles = self.givenstrokestyles
         return hatched(dist, angle, strokestyles)
 
 hatched0 = hatched(_base, 0)
@@ -273,6 +274,7 @@ hatched135.LARGE = hatched135(_base*math.sqrt(64))
 class crosshatched(pattern):
     def __init__(self, dist, angle, strokestyles=[]):
         pattern.__init__(self, painttype=1, tilingtype=1, xstep=dist, ystep=dist, bbox=None, trafo=trafo.rotate(angle))
+        self.givenstrokestyles = strokestyles
         self.strokestyles = attr.mergeattrs([style.linewidth.THIN] + strokestyles)
         attr.checkattrs(self.strokestyles, [style.strokestyle])
         self.dist = dist
@@ -286,7 +288,7 @@ class crosshatched(pattern):
         if angle is None:
             angle = self.angle
         if strokestyles is None:
-            strokestyles = self.strokestyles
+            strokestyles = self.givenstrokestyles
         return crosshatched(dist, angle, strokestyles)
 
 crosshatched0 = crosshatched(_base, 0)
-- 
2.43.0


From 2b93532dad0ca5ac448cb3a52d681e9c01c369a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 081/101] fix: split normpaths sharing normsubpaths with the
 normpath

---
 pyx/normpath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 75beb69..17d75bf 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1318,7 +1318,7 @@ class normsubpath:
             raise ValueError("at least two parameters needed in segments")
         if not self.normsubpathitems:
             assert not self.closed # "empty" normsubpath cannot be closed
-            return [self]*(len(params)-1)
+            return [self.copy() for param in params[1:]]
 
         result = [normsubpath(epsilon=self.epsilon)]
 
@@ -1895,14 +1895,14 @@ class normpath:
                     # gap to the forthcoming index
                     if param.normsubpathindex > collectindex:
                         for i in range(collectindex+1, param.normsubpathindex):
-                            result[-1].append(self.normsubpaths[i])
+                            result[-1].append(self.normsubpaths[i].copy())
                         collectparams = [0]
                     else:
                         for i in range(collectindex-1, param.normsubpathindex, -1):
                             result[-1].append(self.normsubpaths[i].reversed())
                         collectparams = [len(self.normsubpaths[param.normsubpathindex])]
                 else:
-                    result = [normpath(self.normsubpaths[:param.normsubpathindex])]
+                    result = [normpath([anormsubpath.copy() for anormsubpath in self.normsubpaths[:param.normsubpathindex]])]
                     collectparams = [0]
                 collectindex = param.normsubpathindex
             collectparams.append(param.normsubpathparam)
@@ -1911,7 +1911,7 @@ class normpath:
         segments = self.normsubpaths[collectindex].segments(collectparams)
         result[-1].append(segments[0])
         result.extend([normpath([segment]) for segment in segments[1:]])
-        result[-1].extend(self.normsubpaths[collectindex+1:])
+        result[-1].extend([anormsubpath.copy() for anormsubpath in self.normsubpaths[collectindex+1:]])
         return result
 
     def split_pt(self, params):
-- 
2.43.0


From 4238cc2079b83ca76cf997b1f093bfea42a6cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 082/101] fix: joined normpaths sharing normsubpaths with the
 other normpath

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 17d75bf..a561ffe 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1794,7 +1794,7 @@ class normpath:
         if not other.normsubpaths:
             raise NormpathException("cannot join empty path")
         self.normsubpaths[-1].join(other.normsubpaths[0])
-        self.normsubpaths.extend(other.normsubpaths[1:])
+        self.normsubpaths.extend([anormsubpath.copy() for anormsubpath in other.normsubpaths[1:]])
 
     def joined(self, other):
         """return joined self and other
-- 
2.43.0


From eb36c882a1b5be05c148f779f42643c7e6d61401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 083/101] fix: adding and joining a normpath to itself

---
 pyx/normpath.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index a561ffe..ffe2b79 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1222,6 +1222,9 @@ class normsubpath:
         if other.closed:
             raise NormpathException("Cannot join closed normsubpath")
 
+        if other is self:
+            other = self.copy()
+
         if self.normsubpathitems:
             # insert connection line
             x0_pt, y0_pt = self.atend_pt()
@@ -1564,8 +1567,7 @@ class normpath:
 
     def __iadd__(self, other):
         """add other inplace"""
-        for normsubpath in other.normpath().normsubpaths:
-            self.normsubpaths.append(normsubpath.copy())
+        self.normsubpaths.extend([anormsubpath.copy() for anormsubpath in other.normpath().normsubpaths])
         return self
 
     def __getitem__(self, i):
@@ -1788,6 +1790,8 @@ class normpath:
         normsubpath of other.
         """
         other = other.normpath()
+        if other is self:
+            other = self.copy()
 
         if not self.normsubpaths:
             raise NormpathException("cannot join to empty path")
-- 
2.43.0


From 5cd8486bb99c8d937afbc734ed581cbdb162933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 084/101] fix: deformers returning the normsubpaths of the
 deformed path

---
 pyx/deformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index b068726..62bdc75 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -427,7 +427,7 @@ class cycloid(baseclasses.deformer): # <<<
         totlength = normsubpath.arclen_pt()
         if totlength <= skipfirst + skiplast + 2*radius*sinTurn:
             logger.warning("normsubpath is too short for deformation with cycloid -- skipping...")
-            return normsubpath
+            return normsubpath.copy()
 
         # parameterization is in rotation-angle around the basepath
         # differences in length, angle ... between two basepoints
@@ -487,7 +487,7 @@ class cycloid(baseclasses.deformer): # <<<
 
         if len(points) <= 1:
             logger.warning("normsubpath is too short for deformation with cycloid -- skipping...")
-            return normsubpath
+            return normsubpath.copy()
 
         # Build the path from the pointlist
         # containing (control x 2,  base x 2, control x 2)
@@ -916,7 +916,7 @@ class parallel(baseclasses.deformer): # <<<
             par_to_orig = {}
             for nspitem in orig_nsp:
                 par_to_orig[nspitem] = nspitem
-            return normpath.normpath([orig_nsp]), None, None, par_to_orig
+            return normpath.normpath([orig_nsp.copy()]), None, None, par_to_orig
 
         result = None
         par_to_orig = None
-- 
2.43.0


From 1b16b9dc08ac23dc0cc5de027e4e90e884edd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 085/101] fix: locating files by the locate executable

---
 pyx/config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 00272a9..cf74b52 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -272,12 +272,12 @@ class locate:
 
     def openers(self, filename, formats):
         full_filename = None
-        for extension in extensions:
-            with Popen([self.locate, filename+extension], stdout=subprocess.PIPE).stdout as output:
-                with io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape") as text_output:
+        for searched_filename in full_filenames(filename, formats):
+            with Popen([self.locate, searched_filename], stdout=subprocess.PIPE) as process:
+                with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
                     for line in text_output:
                         line = line.rstrip()
-                        if os.path.basename(line) == filename+extension:
+                        if os.path.basename(line) == searched_filename:
                             full_filename = line
                             break
             if full_filename:
@@ -293,7 +293,7 @@ class locate:
             except IOError:
                 logger.warning("'%s' should be available at '%s' according to the locate, "
                             "but the file is not available at this location; "
-                            "update your locate database" % (filename+extension, full_filename))
+                            "update your locate database" % (searched_filename, full_filename))
         return [_opener]
 
 locator_classes["locate"] = locate
-- 
2.43.0


From 316d712ee7033bb846b8d82387313683f4b50d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 086/101] fix: raise the error on an invalid parbox baseline

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 71435cb..eeb704f 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -512,7 +512,7 @@ class parbox_pt(attr.sortbeforeexclusiveattr, textattr):
         elif self.baseline == self.bottom:
             return r"\linewidth=%.5ftruept\vbox{\hsize=\linewidth\textwidth=\linewidth{}%s}" % (self.width, expr)
         else:
-            ValueError("invalid baseline argument")
+            raise ValueError("invalid baseline argument")
 
 parbox_pt.clear = attr.clearclass(parbox_pt)
 
-- 
2.43.0


From ad82c5ff76e0a3d15001cb1ec95c98fcd9b7b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 087/101] fix: name of the interpreter in the messages on a
 failed cleanup

---
 pyx/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index eeb704f..cfa5b86 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1036,9 +1036,9 @@ class SingleEngine:
                     if self.state < STATE_DONE: # cleanup while TeX is still running?
                         self.texoutput.expect(None)
                         self.force_done()
-                        for f, msg in [(self.texinput.close, "We tried to communicate to %s to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
+                        for f, msg in [(self.texinput.close, "We tried to communicate to {} to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
                                        (self.popen.terminate, "Failed, too. Trying by kill signal now ..."),
-                                       (self.popen.kill, "We tried very hard to get rid of the %s process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
+                                       (self.popen.kill, "We tried very hard to get rid of the {} process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
                             f()
                             if self.texoutput.done():
                                 break
-- 
2.43.0


From 7d1e292cf3058f69eb77c68a6a086703c8d5675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 088/101] fix: report unknown color models in color specials

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index b03ad64..25a2b56 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -265,7 +265,7 @@ class DVIfile:
                         arg = tuple([float(x[0]) for x in numpat.findall(sd["arg"])])
                         try:
                             c = getattr(color, sd["model"])(*arg)
-                        except TypeError or AttributeError:
+                        except (TypeError, AttributeError):
                             raise RuntimeError("cannot access PyX color '%s' in TeX, aborting" % " ".join(args[1:]))
                     else:
                         try:
-- 
2.43.0


From a071748745e9666cb245f786f044423786abd801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 089/101] fix: error messages for broken encoding files

---
 pyx/dvi/encfile.py | 4 ++--
 pyx/dvi/mapfile.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/dvi/encfile.py b/pyx/dvi/encfile.py
index 6571494..f2abc5c 100644
--- a/pyx/dvi/encfile.py
+++ b/pyx/dvi/encfile.py
@@ -23,12 +23,12 @@
 
 from pyx import reader
 
-class ENFfileError(Exception):
+class ENCfileError(Exception):
     pass
 
 class ENCfile:
 
-    def __init__(self, bytes):
+    def __init__(self, bytes, filename="unknown"):
         c = reader.PStokenizer(bytes, "")
 
         # name of encoding
diff --git a/pyx/dvi/mapfile.py b/pyx/dvi/mapfile.py
index 8ee9450..413ddc0 100644
--- a/pyx/dvi/mapfile.py
+++ b/pyx/dvi/mapfile.py
@@ -152,7 +152,7 @@ class MAPline:
         if self._encoding is _marker:
             if self.encodingfilename is not None:
                 with config.open(self.encodingfilename, [config.format.tex_ps_header]) as encodingfile:
-                    ef = encfile.ENCfile(encodingfile.read().decode("ascii", errors="surrogateescape"))
+                    ef = encfile.ENCfile(encodingfile.read().decode("ascii", errors="surrogateescape"), self.encodingfilename)
                 assert ef.name == "/%s" % self.reencodefont
                 self._encoding = ef.vector
 
-- 
2.43.0


From 10bc62306795cf9b8e2862bae80d468570f497f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 090/101] fix: string representation of font map lines

---
 pyx/dvi/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/mapfile.py b/pyx/dvi/mapfile.py
index 413ddc0..2a7e71c 100644
--- a/pyx/dvi/mapfile.py
+++ b/pyx/dvi/mapfile.py
@@ -162,7 +162,7 @@ class MAPline:
 
     def __str__(self):
         return ("'%s' is '%s' read from '%s' encoded as '%s'" %
-                (self.texname, self.basepsname, self.fontfile, repr(self.encodingfile)))
+                (self.texname, self.basepsname, self.fontfilename, repr(self.encodingfilename)))
 
 # generate fontmap
 
-- 
2.43.0


From e50ce85cdaf7b17988158f568b095c1eca4d6fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 091/101] fix: reading MetricsSets of font metrics

---
 pyx/font/afmfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index c4821b3..a404e1c 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1000,6 +1000,7 @@ class AFMfile(metric.metric):
        self.italicangles = [None] * 2           # float, optional (for each direction)
        self.charwidths = [None] * 2             # 2 floats, optional (for each direction)
        self.isfixedpitchs = [None] * 2          # bool, optional (for each direction)
+       self.directionseen = False               # internal variable to verify that MetricsSets precedes all directions
        self.expected_entries = None             # if set, internal variable to verify number of expected entries in a section
        self.charmetrics = None                  # list of character metrics information, optional
        self.charmetricsdict = {}                # helper dictionary mapping glyph names to character metrics information
@@ -1032,7 +1033,7 @@ class AFMfile(metric.metric):
             return _READ_MAIN, None
         elif key == "MetricsSets":
             self.metricssets = _parseint(args)
-            if direction is not None:
+            if self.directionseen:
                 raise AFMError("MetricsSets not allowed after first (implicit) StartDirection")
         elif key == "FontName":
             self.fontname = _parsestr(args)
@@ -1079,6 +1080,7 @@ class AFMfile(metric.metric):
             self.stdvw = _parsefloat(args)
         elif key == "StartDirection":
             direction = _parseint(args)
+            self.directionseen = True
             if 0 <= direction <= 2:
                 return _READ_DIRECTION, direction
             else:
@@ -1086,6 +1088,7 @@ class AFMfile(metric.metric):
         elif (key == "UnderlinePosition" or key == "UnderlineThickness" or key == "ItalicAngle" or
               key == "Charwidth" or key == "IsFixedPitch"):
             # we implicitly entered a direction section, so we should process the line again
+            self.directionseen = True
             return self._processline_direction(line, 0)
         elif key == "StartCharMetrics":
             if self.charmetrics is not None:
-- 
2.43.0


From 339c187258e8f276ffe92f2767de218d34670fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 092/101] fix: reading CIA world data bank files

---
 pyx/graph/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 81f2582..65603d2 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -437,18 +437,18 @@ class cbdfile(data):
                 for i in range(self.nstrokes):
                     c1, c2 = struct.unpack("2c", file.read(2))
                     if ord(c2) & 0x40:
-                        if c1 > "\177":
+                        if c1 > b"\177":
                             dy = ord(c1) - 256
                         else:
                             dy = ord(c1)
-                        if c2 > "\177":
+                        if c2 > b"\177":
                             dx = ord(c2) - 256
                         else:
                             dx = ord(c2) - 64
                     else:
                         c3, c4, c5, c6, c7, c8 = struct.unpack("6c", file.read(6))
-                        if c2 > "\177":
-                            c2 = chr(ord(c2) | 0x40)
+                        if c2 > b"\177":
+                            c2 = bytes([ord(c2) | 0x40])
                         dx, dy = struct.unpack("<2i", c3+c4+c1+c2+c7+c8+c5+c6)
                     oln += dx
                     olt += dy
-- 
2.43.0


From 867ece0d29af0e24ea0877f2347a0db3ebee6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 093/101] fix: wait for Ghostscript when writing its input
 fails

---
 pyx/canvas.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 73bf31f..d5a7211 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -480,10 +480,8 @@ class canvas(baseclasses.canvasitem):
 
         if input == "eps":
             cmd.append("-")
-            p = config.Popen(cmd, stdin=config.PIPE)
-            self.writeEPSfile(p.stdin, **kwargs)
-            p.stdin.close()
-            p.wait()
+            with config.Popen(cmd, stdin=config.PIPE) as p:
+                self.writeEPSfile(p.stdin, **kwargs)
         elif input == "pdf":
             # PDF files need to be accesible by random access and thus we need to create
             # a temporary file
-- 
2.43.0


From 5ee2d04a79f857efdec6d70a9afd77a8e2c4e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 094/101] fix: remove temporary files when Ghostscript output
 fails

---
 pyx/canvas.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index d5a7211..fa82e5a 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -485,12 +485,14 @@ class canvas(baseclasses.canvasitem):
         elif input == "pdf":
             # PDF files need to be accesible by random access and thus we need to create
             # a temporary file
-            with tempfile.NamedTemporaryFile("wb", delete=False) as f:
-                self.writePDFfile(f, **kwargs)
-                fname = f.name
-            cmd.append(fname)
-            config.Popen(cmd).wait()
-            os.unlink(fname)
+            f = tempfile.NamedTemporaryFile("wb", delete=False)
+            try:
+                with f:
+                    self.writePDFfile(f, **kwargs)
+                cmd.append(f.name)
+                config.Popen(cmd).wait()
+            finally:
+                os.unlink(f.name)
         else:
             raise RuntimeError("input 'eps' or 'pdf' expected")
 
@@ -502,19 +504,21 @@ class canvas(baseclasses.canvasitem):
 
         cmd, kwargs = self._gscmd(device, "-", **kwargs)
 
-        with tempfile.NamedTemporaryFile("wb", delete=False) as f:
-            if input == "eps":
-                self.writeEPSfile(f, **kwargs)
-            elif input == "pdf":
-                self.writePDFfile(f, **kwargs)
-            else:
-                raise RuntimeError("input 'eps' or 'pdf' expected")
-            fname = f.name
-
-        cmd.append(fname)
-        p = config.Popen(cmd, stdout=config.PIPE)
-        data, error = p.communicate()
-        os.unlink(fname)
+        f = tempfile.NamedTemporaryFile("wb", delete=False)
+        try:
+            with f:
+                if input == "eps":
+                    self.writeEPSfile(f, **kwargs)
+                elif input == "pdf":
+                    self.writePDFfile(f, **kwargs)
+                else:
+                    raise RuntimeError("input 'eps' or 'pdf' expected")
+
+            cmd.append(f.name)
+            with config.Popen(cmd, stdout=config.PIPE) as p:
+                data, error = p.communicate()
+        finally:
+            os.unlink(f.name)
 
         if error:
             raise ValueError("error received while waiting for ghostscript")
-- 
2.43.0


From 3da233283ac8a9ebe092587e5804685adac40206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 095/101] fix: wait for cygpath

---
 pyx/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index cf74b52..2948515 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -225,8 +225,9 @@ STDOUT = subprocess.STDOUT
 def fix_cygwin(full_filename):
     # detect cygwin result on windows python
     if os.name == "nt" and full_filename.startswith("/"):
-        with Popen(['cygpath', '-w', full_filename], stdout=subprocess.PIPE).stdout as output:
-            return io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape").readline().rstrip()
+        with Popen(['cygpath', '-w', full_filename], stdout=subprocess.PIPE) as process:
+            with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as output:
+                return output.readline().rstrip()
     return full_filename
 
 
-- 
2.43.0


From 0fce78e8395ff6623dbeeeb429f5678d809b018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 096/101] fix: close the files read by conffile and cbdfile

---
 pyx/graph/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 65603d2..8ba92fd 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -381,7 +381,8 @@ class conffile(data):
         except Exception:
             # not a file-like object -> open it
             if filename not in filecache:
-                filecache[filename] = readfile(open(filename), filename)
+                with open(filename) as f:
+                    filecache[filename] = readfile(f, filename)
             data.__init__(self, filecache[filename], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
@@ -488,7 +489,8 @@ class cbdfile(data):
             # not a file-like object -> open it
             cachekey = self.getcachekey(filename, minrank, maxrank)
             if cachekey not in cbdfilecache:
-                cbdfilecache[cachekey] = readfile(open(filename, "rb"), filename)
+                with open(filename, "rb") as f:
+                    cbdfilecache[cachekey] = readfile(f, filename)
             data.__init__(self, cbdfilecache[cachekey], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
-- 
2.43.0


From a5e5cb02ede2a4467b52c55f80cd0bd7f71ef336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 097/101] fix: texts after a failing first text in texipc mode

---
 pyx/text.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index cfa5b86..6e72463 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1301,9 +1301,8 @@ class SingleEngine:
             expr = expr.tex
         for ta in textattrs[::-1]:
             expr = ta.apply(expr)
-        first = self.state < STATE_TYPESET
         left_pt, right_pt, height_pt, depth_pt = self.do_typeset(expr, self.texmessages_run_default + self.texmessages_run + texmessages)
-        if self.texipc and first:
+        if self.texipc and self.dvifile is None:
             self.dvifile = dvifile.DVIfile(os.path.join(self.tmpdir, "texput.dvi"), debug=self.dvitype)
         box = textextbox_pt(x_pt, y_pt, left_pt, right_pt, height_pt, depth_pt, self.do_finish, fontmap, singlecharmode, fillstyles)
         for t in trafos:
-- 
2.43.0


From b9c8d1c4b4727717c4e4479b816fc9b900e8fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 098/101] fix: texts after a failing text

---
 pyx/text.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 6e72463..32af239 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1019,8 +1019,9 @@ class SingleEngine:
         self.executeid = 0
         self.page = 0
 
-        self.needdvitextboxes = [] # when texipc-mode off
+        self.needdvitextboxes = [] # pages and boxes when texipc-mode off
         self.dvifile = None
+        self.dvipage = 0 # pages already read from the dvifile
 
     def _cleanup(self):
         """Clean-up TeX interpreter and tmp directory.
@@ -1241,16 +1242,24 @@ class SingleEngine:
         if self.needdvitextboxes:
             dvifilename = os.path.join(self.tmpdir, "texput.dvi")
             self.dvifile = dvifile.DVIfile(dvifilename, debug=self.dvitype)
-            page = 1
-            for box in self.needdvitextboxes:
+            for page, box in self.needdvitextboxes:
+                self._skip_dvipages(page-1)
+                self.dvipage = page
                 box.readdvipage(self.dvifile, page)
-                page += 1
-        if self.dvifile is not None and self.dvifile.readpage(None) is not None:
-            raise ValueError("end of dvifile expected but further pages follow")
+        if self.dvifile is not None:
+            self._skip_dvipages(self.page)
+            if self.dvifile.readpage(None) is not None:
+                raise ValueError("end of dvifile expected but further pages follow")
         if cleanup:
             atexit.unregister(self._cleanup)
             self._cleanup()
 
+    def _skip_dvipages(self, page):
+        """Skip the pages of texts, which failed, up to (and including) page."""
+        while self.dvipage < page:
+            self.dvifile.readpage(None)
+            self.dvipage += 1
+
     def preamble(self, expr, texmessages=[]):
         """Execute a preamble.
 
@@ -1310,9 +1319,11 @@ class SingleEngine:
                                 #       this is quite different from what we do elsewhere!!!
                                 #       see https://sourceforge.net/mailarchive/forum.php?thread_id=9137692&forum_id=23700
         if self.texipc:
+            self._skip_dvipages(self.page-1)
+            self.dvipage = self.page
             box.readdvipage(self.dvifile, self.page)
         else:
-            self.needdvitextboxes.append(box)
+            self.needdvitextboxes.append((self.page, box))
         return box
 
     def text(self, x, y, *args, **kwargs):
-- 
2.43.0


From da5d8aae443c0035de6d3b4333fa739a86be53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 099/101] fix: end TeX when it does not respond

---
 pyx/text.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 32af239..19dbd41 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1032,10 +1032,10 @@ class SingleEngine:
         """
         try:
             if self.state > STATE_START:
-                if self.state < STATE_DONE:
+                try:
                     self.do_finish(cleanup=False)
-                    if self.state < STATE_DONE: # cleanup while TeX is still running?
-                        self.texoutput.expect(None)
+                finally:
+                    if self.texoutput.is_alive(): # cleanup while TeX is still running?
                         self.force_done()
                         for f, msg in [(self.texinput.close, "We tried to communicate to {} to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
                                        (self.popen.terminate, "Failed, too. Trying by kill signal now ..."),
@@ -1044,7 +1044,7 @@ class SingleEngine:
                             if self.texoutput.done():
                                 break
                             logger.warning(msg)
-                self.popen.wait()
+                    self.popen.wait()
                 for usefile in self.usefiles:
                     extpos = usefile.rfind(".")
                     try:
-- 
2.43.0


From 8a86e9bf0da78784420669560d9280d2740e99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 100/101] fix: several graphics loading messages of TeX

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 19dbd41..2029ec4 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -332,7 +332,7 @@ class texmessage:
             while m:
                 if not os.path.isfile(config.get("text", "chroot", "") + m.group("filename")):
                     return msg
-                r, m = remove_pattern(texmessage.quoted_file_pattern, r)
+                r, m = remove_pattern(p, r)
         return r
 
     @staticmethod
-- 
2.43.0


From d6ffe8dfa92e44872a42a605839c00a2c8216528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:20 +0000
Subject: [PATCH 101/101] fix: graph.data.function leaves its context untouched
 when evaluated

---
 pyx/graph/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 8ba92fd..66a3007 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -542,14 +542,15 @@ class function(_data):
         if logaxis:
             min = math.log(min)
             max = math.log(max)
+        context = self.context.copy()
         for i in range(self.numberofpoints):
             x = min + (max-min)*i / (self.numberofpoints-1.0)
             if logaxis:
                 x = math.exp(x)
             dynamiccolumns[self.xname].append(x)
-            self.context[self.xname] = x
+            context[self.xname] = x
             try:
-                y = eval(self.expression, _mathglobals, self.context)
+                y = eval(self.expression, _mathglobals, context)
             except (ArithmeticError, ValueError):
                 y = None
             dynamiccolumns[self.yname].append(y)
-- 
2.43.0

