From e93a04a0688abeadd90e62786ded119ac39396c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 01/69] fix: Length equality compares with the other length,
 not with itself

---
 svgio/basic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..3a4dcee 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -309,13 +309,13 @@ class Length(object):
         if self.amount == other.amount and self.units == other.units:
             return True
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
-- 
2.43.0


From 8f723c33522b677ecd81e1cb124a60a7c8eab179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 02/69] fix: Length.in_pixels converts pt and pc in the same
 direction as value()

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3a4dcee..78afcb8 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -327,9 +327,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From 23e8a14a30c3b84df400ba8bbf3f30d7b1413752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 03/69] fix: vmin and vmax lengths take the viewbox width into
 account

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 78afcb8..952a90a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -463,13 +463,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From dddad9038a04371dcd56f9a9aa8dff932e0584ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 04/69] fix: aliceblue is #f0f8ff, drop the wrong entry that
 shadowed it

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 952a90a..e7d395f 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -684,8 +684,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From 764e3654184ef4f414505a666b3428f8ebd5f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 05/69] fix: hsl() hues more than one turn away wrap around the
 colour circle

---
 svgio/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index e7d395f..b52acab 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -640,6 +640,7 @@ class Color(object):
                 return v1 + (v2 - v1) * ((2.0 / 3.0) - vh) * 6.0
             return v1
 
+        h = h % 1.0
         if s == 0.0:
             r = 255.0 * l
             g = 255.0 * l
-- 
2.43.0


From 88e39f599fd6c4d9645873f14142ab56d1e81fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 06/69] fix: setting hsl takes the hue in degrees, as the
 getter gives it, and keeps alpha

---
 svgio/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index b52acab..397fb90 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1413,10 +1413,11 @@ class Color(object):
     def hsl(self, value):
         if not isinstance(value, (tuple, list)):
             return
-        h = value[0]
+        h = value[0] / 360.0
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = 1.0 if self.value is None else self.opacity
+        self.value = Color.hsl_to_int(h, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From 23226b6589ce90678a6e3fec4cacd1cb1d4c78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 07/69] fix: Color.over accepts colour strings

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 397fb90..c9ff67f 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1328,11 +1328,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From 5789c4854680c175b9e15ffaec5d06ea5b479715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 08/69] fix: Color.distance_sq scales only the red and blue
 terms down

---
 svgio/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index c9ff67f..26cfb26 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1391,9 +1391,11 @@ class Color(object):
         r = c1.red - c2.red
         g = c1.green - c2.green
         b = c1.blue - c2.blue
-        return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+        return (
+            (((512 + red_mean) * r * r) >> 8)
+            + 4 * g * g
+            + (((767 - red_mean) * b * b) >> 8)
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From 38bbf109a50485a7c428aeb1b21f555f4526a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 09/69] fix: Angle equality holds across the wrap at a full
 turn, and != is its negation

---
 svgio/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 26cfb26..d7f640d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1842,8 +1842,11 @@ class Angle(float):
 
     def __eq__(self, other):
         # Python 2
-        c1 = abs((self % tau) - (other % tau)) <= 1e-11
-        return c1
+        delta = abs(self - other) % tau
+        return min(delta, tau - delta) <= 1e-11
+
+    def __ne__(self, other):
+        return not self == other
 
     def normalized(self):
         return Angle(self % tau)
-- 
2.43.0


From ecb3b9fc795672d85a633d0629ce0d5c5bbbc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 10/69] fix: str(Point) keeps the exponent's zeros

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index d7f640d..b2288e8 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1529,10 +1529,10 @@ class Point:
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
+        if "." in x_str and "E" not in x_str:
             x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
+        if "." in y_str and "E" not in y_str:
             y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
-- 
2.43.0


From 7e96131b81358b621247b4de6922910a33a15f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 11/69] fix: a transform string can be the left operand of a
 matrix product

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index b2288e8..6b5f0b2 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1996,7 +1996,7 @@ class Matrix:
         return m
 
     def __rmatmul__(self, other):
-        m = copy(other)
+        m = Matrix(other) if isinstance(other, str) else copy(other)
         m.__imatmul__(self)
         return m
 
-- 
2.43.0


From 40f4e52ff196c0413077ab6580a4e3b360c7e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 12/69] fix: a Path has no transform attribute, so segments()
 and d() cannot use one

---
 svgio/path.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..7efa789 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2752,14 +2752,9 @@ class Path(MutableSequence):
         return " ".join(parts)
 
     def d(self, relative=None, transformed=True, smooth=None):
-        path = self
-        if transformed:
-            path = abs(path)
-        return Path.svg_d(path._segments, relative=relative, smooth=smooth)
+        return Path.svg_d(self._segments, relative=relative, smooth=smooth)
 
     def segments(self, transformed=True):
-        if transformed and not self.transform.is_identity():
-            return [s * self.transform for s in self._segments]
         return self._segments
 
     def approximate_arcs_with_cubics(self, error=0.1):
@@ -2911,10 +2906,6 @@ class Subpath:
 
     def segments(self, transformed=True):
         path = self._path
-        if transformed:
-            return [
-                s * path.transform for s in path._segments[self._start : self._end + 1]
-            ]
         return path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
-- 
2.43.0


From d372aa1aa88ce1b747727d256d34c24fab2f39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 13/69] fix: Path @ Matrix applies the matrix to the segments

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 7efa789..9042b21 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2040,7 +2040,10 @@ class Path(MutableSequence):
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
+            for segment in self._segments:
+                segment *= other
+            self._length = None
+            self._lengths = None
         return self
 
     def __setitem__(self, index, new_element):
-- 
2.43.0


From cda889285f1e681bd76ba111fdcdc5c54e95c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 14/69] fix: Path(path) and copy(path) keep the segments

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 9042b21..6fd8553 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1973,6 +1973,8 @@ class Path(MutableSequence):
             s = args[0]
             if isinstance(s, Subpath):
                 self._segments.extend(s.segments(transformed=False))
+            elif isinstance(s, Path):
+                self._segments.extend(map(copy, s._segments))
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
-- 
2.43.0


From c984172a5262d31cc9952ecee39aa87925bbb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 15/69] fix: smooth curves reflect a control point only of a
 curve of their own kind

---
 svgio/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6fd8553..ae37aeb 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2501,7 +2501,9 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = start_pos
+        if len(self._segments) and isinstance(self._segments[-1], QuadraticBezier):
+            control1 = self.smooth_point
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2535,7 +2537,9 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = start_pos
+        if len(self._segments) and isinstance(self._segments[-1], CubicBezier):
+            control1 = self.smooth_point
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From 53875b6ff1430953c2da5da8c28f16b1605c707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 16/69] fix: bounding box of a cubic whose cubic term vanishes
 uses its true extremum

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index ae37aeb..a81a404 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1061,7 +1061,12 @@ class CubicBezier(Curve):
                 if 0 < r2 < 1:
                     local_extremizers.append(r2)
         else:
-            local_extremizers.append(0.5)
+            # The cubic term vanishes, the derivative is linear.
+            tau = a[0] - 2 * a[1] + a[2]
+            if tau != 0:
+                r1 = (a[0] - a[1]) / (2.0 * tau)
+                if 0 < r1 < 1:
+                    local_extremizers.append(r1)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From 9d450e4b7df7ca1dcb739d1777b2df76a5f4aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 17/69] fix: Subpath.bbox leaves out the move, which draws
 nothing

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index a81a404..2bb297a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2945,7 +2945,7 @@ class Subpath:
     def bbox(self):
         """returns a bounding box for the input Path"""
         segments = self._path._segments[self._start : self._end + 1]
-        bbs = [seg.bbox() for seg in segments if not isinstance(Close, Move)]
+        bbs = [seg.bbox() for seg in segments if not isinstance(seg, Move)]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
         except ValueError:
-- 
2.43.0


From b41e005f0e5e9663ea094f47ce7f81c4df374d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 18/69] fix: editing a Path keeps every connection and close
 point valid

---
 svgio/path.py | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2bb297a..eecf746 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2066,26 +2066,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2630,21 +2616,14 @@ class Path(MutableSequence):
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         self._length = None
-        index = len(self._segments) - 1
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections()
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
-- 
2.43.0


From 44943b7587c17db5e6f337e1990a2b34896a21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 19/69] fix: reversing a path drops the cached segment lengths

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index eecf746..4f9cc5b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2662,6 +2662,8 @@ class Path(MutableSequence):
             p += subpath
         self._segments = p._segments
         self._segments[0].start = prepoint
+        self._length = None
+        self._lengths = None
         return self
 
     def subpath(self, index):
@@ -2963,6 +2965,8 @@ class Subpath:
         size = len(self)
         if size == 0:
             return
+        self._path._length = None
+        self._path._lengths = None
         start = 0
         end = size - 1
         if isinstance(self[-1], Close):
-- 
2.43.0


From c6280d30789f7335d538383abf87234f4fbf0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 20/69] fix: an arc's sweep flips exactly when the matrix flips
 orientation

---
 svgio/path.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4f9cc5b..29de436 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1434,9 +1434,7 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
+            if other.determinant < 0:
                 self.sweep = -self.sweep
         return self
 
-- 
2.43.0


From ae4d592a8a81466f283d5b7cfbdb6f73b62fd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 21/69] fix: negative arc radii stand for their absolute value

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 29de436..dbf0d96 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1606,6 +1606,8 @@ class Arc(Curve):
             self.pry = Point(start)
             self.center = Point(start)
             return
+        rx = abs(rx)
+        ry = abs(ry)
         cosr = cos(radians(rotation))
         sinr = sin(radians(rotation))
         dx = (start.real - end.real) / 2
-- 
2.43.0


From e1e451a7e3b43d8fc2cf62c63c453fca047f45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 22/69] fix: Path.npoint finds the segment of every position,
 in an array or a list

---
 svgio/path.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index dbf0d96..03b8907 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2167,10 +2167,12 @@ class Path(MutableSequence):
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
         xy = np.empty((len(positions), 2), dtype=float)
+        xy[:] = list(segments[-1].end)  # where rounding leaves a gap before 1
+        positions = np.asarray(positions, dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for k, position in enumerate(positions):
+                i = int(round(position * (len(segments) - 1)))
+                xy[k] = list(segments[i].point(0.0))
             return xy
 
         # Find which segment the point we search for is located on:
@@ -2180,6 +2182,7 @@ class Path(MutableSequence):
             position_subset = (segment_start <= positions) & (positions < segment_end)
             v0 = positions[position_subset]
             if not len(v0):
+                segment_start = segment_end
                 continue  # Nothing matched.
             d = segment_end - segment_start
             if d == 0:  # This segment is 0 length.
-- 
2.43.0


From 44fd44044d7ebb59d576c98748d82ecabaef8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 23/69] fix: a position that rounding leaves past the last
 segment is the path's end

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 03b8907..2cf5e21 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2225,7 +2225,7 @@ class Path(MutableSequence):
             return segments[i].point(0.0)
         # Find which segment the point we search for is located on:
         segment_start = 0
-        segment_pos = 0
+        segment_pos = 1.0
         segment = segments[0]
         for index, segment in enumerate(segments):
             segment_end = segment_start + self._lengths[index]
-- 
2.43.0


From ee44e394b93fbbeb61f55803b0090ffe2efdb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 24/69] fix: str() of a lone curve keeps the control point it
 cannot infer

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2cf5e21..2810d3d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -390,7 +390,7 @@ class PathSegment:
         command to correctly provide the starting position.
         :return: string representation of the object.
         """
-        d = self.d()
+        d = self.d(smooth=False)
         if self.start is not None:
             if self.relative:
                 return "m %s %s" % (self.start, d)
-- 
2.43.0


From b492fff7573772d6d51bc0bee9f9e5e62c618d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 25/69] fix: closest point of a line is a Point, also off its
 ends and for a zero-length line

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2810d3d..4f6c1f4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -685,14 +685,14 @@ class Linear(PathSegment):
         sq_distance_ab = v_ab_x * v_ab_x + v_ab_y * v_ab_y
         ab_ap_product = v_ab_x * v_ap_x + v_ab_y * v_ap_y
         if sq_distance_ab == 0:
-            return 0  # Line is point.
+            return Point(a)  # Line is point.
         amount = ab_ap_product / float(sq_distance_ab)
         if respect_bounds:
             if amount > 1:
                 amount = 1
             if amount < 0:
                 amount = 0
-        return self.point(amount)
+        return Point.towards(a, b, amount)
 
     def d(self, current_point=None, relative=None, smooth=None):
         raise NotImplementedError
-- 
2.43.0


From 924d277b0f99b5f097c7ceb5cde38bbc4d579c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 26/69] fix: an Arc given by its end and sweep gets its start,
 not another end

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4f6c1f4..1cc7492 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1380,7 +1380,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 17991fb81c474f1ac00369d3fcd9af4596952e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 27/69] fix: Subpath.d honours its smooth argument

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1cc7492..6b08bbd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2942,7 +2942,7 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
-- 
2.43.0


From b98634fa3b76b13166cfbeabc8d3ce35efd32acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 28/69] fix: bounding box of an arc without sweep is ordered

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6b08bbd..cfe47a0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1896,7 +1896,12 @@ class Arc(Curve):
         Code from: https://github.com/mathandy/svgpathtools
         """
         if self.sweep == 0:
-            return self.start.x, self.start.y, self.end.x, self.end.y
+            return (
+                min(self.start.x, self.end.x),
+                min(self.start.y, self.end.y),
+                max(self.start.x, self.end.x),
+                max(self.start.y, self.end.y),
+            )
         phi = self.get_rotation().as_radians
         if cos(phi) == 0:
             atan_x = tau / 4.0
-- 
2.43.0


From 47d3083591f9ff51c77ca0038e7a4aa1891fd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 29/69] fix: CubicBezier keeps its second control point when
 the first is unknown

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index cfe47a0..a05a2be 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -933,7 +933,7 @@ class CubicBezier(Curve):
     def __init__(self, start, control1, control2, end, **kwargs):
         Curve.__init__(self, start, end, **kwargs)
         self.control1 = Point(control1) if control1 is not None else None
-        self.control2 = Point(control2) if control1 is not None else None
+        self.control2 = Point(control2) if control2 is not None else None
 
     def __repr__(self):
         return "CubicBezier(start=%s, control1=%s, control2=%s, end=%s)" % (
-- 
2.43.0


From 892f0c91d27302872ab76c8ed62da2bfc1b55c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 30/69] fix: a skewed arc is still an ellipse with
 perpendicular axes

---
 svgio/path.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index a05a2be..4f86f18 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1436,6 +1436,23 @@ class Arc(Curve):
                 self.pry *= other
             if other.determinant < 0:
                 self.sweep = -self.sweep
+            if (
+                self.center is not None
+                and self.prx is not None
+                and self.pry is not None
+            ):
+                # The images of the axes need not be perpendicular: find the axes of the image.
+                u = self.prx - self.center
+                v = self.pry - self.center
+                skewness = 2 * (u.x * v.x + u.y * v.y)
+                uu = u.x * u.x + u.y * u.y
+                vv = v.x * v.x + v.y * v.y
+                if abs(skewness) > 1e-12 * (uu + vv):
+                    t = atan2(skewness, uu - vv) / 2.0
+                    cos_t = cos(t)
+                    sin_t = sin(t)
+                    self.prx = self.center + u * cos_t + v * sin_t
+                    self.pry = self.center + v * cos_t - u * sin_t
         return self
 
     def __len__(self):
-- 
2.43.0


From d72409a103f94092cd7255805f1fefc001b73873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 31/69] fix: Subpath += and del keep the window on the
 subpath's own segments

---
 svgio/path.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4f86f18..adaae1b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2827,20 +2827,24 @@ class Subpath:
         self._path[self.index_to_path_index(index)] = value
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end -= size - len(self._path)
 
     def __iadd__(self, other):
+        size = len(self._path)
+        after = self._end + 1
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
+            self._path[after:after] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
+            self._path[after:after] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            self._path.insert(after, other)
         else:
             return NotImplemented
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
-- 
2.43.0


From 6235127599aef2f252fb94def27f4888e837df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 32/69] fix: transforming a subpath drops the path's cached
 lengths

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index adaae1b..99b03cf 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2872,6 +2872,8 @@ class Subpath:
         if isinstance(other, Matrix):
             for e in self:
                 e *= other
+            self._path._length = None
+            self._path._lengths = None
         return self
 
     def __mul__(self, other):
-- 
2.43.0


From 28f2e39c28fcdf7a7c0c12f0271f941f751e4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 33/69] fix: Path(subpath) does not share segments with the
 subpath's path

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 99b03cf..57a4728 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1999,7 +1999,7 @@ class Path(MutableSequence):
         else:
             s = args[0]
             if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+                self._segments.extend(map(copy, s.segments(transformed=False)))
             elif isinstance(s, Path):
                 self._segments.extend(map(copy, s._segments))
             elif isinstance(s, str):
-- 
2.43.0


From 55c56d89001131b7784d5623d73bde116faccdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 34/69] fix: adding a segment to a path leaves the segment
 itself alone

---
 svgio/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 57a4728..a5dcf77 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2109,7 +2109,7 @@ class Path(MutableSequence):
     def __add__(self, other):
         if isinstance(other, (str, Path, Subpath, PathSegment)):
             n = copy(self)
-            n += other
+            n += copy(other)
             return n
         return NotImplemented
 
@@ -2120,7 +2120,7 @@ class Path(MutableSequence):
             return path
         elif isinstance(other, PathSegment):
             path = copy(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
@@ -2861,7 +2861,7 @@ class Subpath:
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From 8a2e3b2cfd3d40512f1c38126de6feaccb9ae988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 35/69] fix: saving a node works on Pythons without
 xml.etree.cElementTree

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..d632a08 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -69,7 +69,7 @@ class Node(list):
         return self._name().lower()
 
     def xml(self, context=None):
-        from xml.etree.cElementTree import Element, SubElement, tostring
+        from xml.etree.ElementTree import Element, SubElement, tostring
 
         if context is None:
             context = Element(self.tag())
-- 
2.43.0


From ddce6eb726d6efd17f97d9e003bc1081bbdb7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 36/69] fix: siblings are found by identity, equal-looking
 nodes are not confused

---
 svgio/nodes.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d632a08..c84b046 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -164,11 +164,12 @@ class Node(list):
         returns null if the specified node is the last child in the parent element.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            return self.parent[index + 1]
-        except (AttributeError, IndexError):
+        if self.parent is None:
             return None
+        for index, node in enumerate(self.parent):
+            if node is self:
+                return self.parent[index + 1] if index + 1 < len(self.parent) else None
+        return None
 
     @property
     def node_type(self):
@@ -208,13 +209,12 @@ class Node(list):
         null if the specified node is the first in that list.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            if index == 0:
-                return None
-            return self.parent[index - 1]
-        except (AttributeError, IndexError):
+        if self.parent is None:
             return None
+        for index, node in enumerate(self.parent):
+            if node is self:
+                return self.parent[index - 1] if index > 0 else None
+        return None
 
     @property
     def text_content(self):
@@ -376,7 +376,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From 4cde91b0cfcf77ae4f8df936b5fe105e324d3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 37/69] fix: every element type can be created while parsing
 and by its builder

---
 svgio/nodes.py | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c84b046..1eaec82 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
@@ -1802,9 +1803,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1858,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1898,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1934,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 8954356c39eacf71bcd6d5f15f79d7b189758cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 38/69] fix: saved elements keep their tag

---
 svgio/nodes.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 1eaec82..60cf43a 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -40,6 +40,8 @@ and the Arc can do exact arc calculations if scipy is installed.
 
 
 class Node(list):
+    _tag = None  # Tag of a parsed element whose type is not known.
+
     def __init__(self, *args, **kwargs):
         super().__init__()
         self.document = None
@@ -66,7 +68,7 @@ class Node(list):
             return object.__getattribute__(self, name)
 
     def tag(self):
-        return self._name().lower()
+        return self._tag if self._tag is not None else self._name().lower()
 
     def xml(self, context=None):
         from xml.etree.ElementTree import Element, SubElement, tostring
@@ -109,6 +111,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                    node._tag = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
@@ -1385,7 +1388,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1921,6 +1924,9 @@ class Script(Element):
 
 
 class Hyperlink(ContainerElement, Element):
+    def tag(self):
+        return "a"
+
     @property
     def href(self):
         values = Document.get_values(self)
@@ -1934,11 +1940,17 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 90c0e36ee12318470264958b5e43e17e80caf6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 39/69] fix: Document.write writes the document's XML

---
 svgio/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 60cf43a..25449c3 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -456,8 +456,9 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
-            output.write(str(self))
+        with io.open(filename, mode="w", encoding="utf-8") as output:
+            for node in self:
+                output.write(node.xml())
 
     def render(self):
         pass
-- 
2.43.0


From 43292890c483b4e7a3719579a4a6277c899cd1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 40/69] fix: reading the stroke of an element with a
 stroke-opacity does not recurse

---
 svgio/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 25449c3..37a0a92 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -539,11 +539,11 @@ class GraphicalElement:
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
         if (
             stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
+            and stroke is not None
+            and stroke.value is not None
         ):
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From 3d31bd9e08ac759eeece467d1c6d3a98a1d28490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 41/69] fix: Circle(cx, cy, r) sets the centre

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 37a0a92..e93bdb6 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1085,8 +1085,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0


From 9b938e2b0de1c3d88a40c5a7bc9a6f8d131a14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 42/69] fix: Image.data decodes the data URL of its href

---
 svgio/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index e93bdb6..bf68cd2 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1657,13 +1657,13 @@ class Image(Element, GraphicalElement, Transformable):
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 98f599dd06d4795caf6af1fbc0b26735d47c6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 43/69] fix: Shape.bbox leaves out the move, which draws
 nothing

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index bf68cd2..50bf118 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -663,7 +663,7 @@ class Shape(Element, GraphicalElement, Transformable):
         bbs = [
             seg.bbox()
             for seg in self.segments(transformed=transformed)
-            if not isinstance(path.Close, path.Move)
+            if not isinstance(seg, path.Move)
         ]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
-- 
2.43.0


From 6380d33968c09b18c063b09481e57d47c1871062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 44/69] fix: character data of a loaded file is saved again

---
 svgio/nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 50bf118..0b7d67e 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -41,6 +41,7 @@ and the Arc can do exact arc calculations if scipy is installed.
 
 class Node(list):
     _tag = None  # Tag of a parsed element whose type is not known.
+    _source = None  # Parsed XML element, which holds the character data.
 
     def __init__(self, *args, **kwargs):
         super().__init__()
@@ -73,10 +74,15 @@ class Node(list):
     def xml(self, context=None):
         from xml.etree.ElementTree import Element, SubElement, tostring
 
+        source = self._source
         if context is None:
             context = Element(self.tag())
         else:
             context = SubElement(context, self.tag())
+            if source is not None and source.tail is not None and source.tail.strip():
+                context.tail = source.tail
+        if source is not None and source.text is not None and source.text.strip():
+            context.text = source.text
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
@@ -112,6 +118,7 @@ class Node(list):
                 except KeyError:
                     node = Node()
                     node._tag = tag
+                node._source = elem
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
-- 
2.43.0


From cbef4c6bfaf27abdd882bc905b2ee35117ecb33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 45/69] fix: reversing a closed subpath keeps the following
 move connected

---
 svgio/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/path.py b/svgio/path.py
index a5dcf77..d54ada1 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -3017,4 +3017,5 @@ class Subpath:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+                self._path._validate_connection(self._end)
         return self
-- 
2.43.0


From 12b63b7a9c8e82a657509746e7468260a7130f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 46/69] fix: Subpath + segment leaves the segment alone

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d54ada1..cd22cbb 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2850,7 +2850,7 @@ class Subpath:
     def __add__(self, other):
         if isinstance(other, (str, Path, PathSegment)):
             n = copy(self)
-            n += other
+            n += copy(other)
             return n
         return NotImplemented
 
-- 
2.43.0


From 9915c22d81348a8cbc9c6191438fbe6f7aee2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 47/69] fix: length of an evenly spaced quadratic curve

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index cd22cbb..9d7fdd2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -864,6 +864,10 @@ class QuadraticBezier(Curve):
         """Calculate the length of the path up to a certain position"""
         a = self.start - 2 * self.control + self.end
         b = 2 * (self.control - self.start)
+        if abs(a) < 1e-6 * abs(b):
+            # Evenly spaced control points give a straight line: the closed form
+            # would divide rounding errors by the vanishing term.
+            return abs(a + b)
         try:
             # For an explanation of this case, see
             # http://www.malczak.info/blog/quadratic-bezier-curve-length/
-- 
2.43.0


From 282dab13e24baa355f69af0f276f725a5d91c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 48/69] fix: preserveAspectRatio values may be separated by any
 white space

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 6b5f0b2..2375a2d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2629,7 +2629,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From 2d869549c3d7cf3b5d708952ecb3cbf0544bd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 49/69] fix: text elements print like other elements

---
 svgio/nodes.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 0b7d67e..5ea5956 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1538,24 +1538,6 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     #
     #     self.path = None
 
-    def __str__(self):
-        parts = list()
-        parts.append("'%s'" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
-    def __repr__(self):
-        parts = list()
-        parts.append("%s" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
     @property
     def x(self):
         values = Document.get_values(self)
-- 
2.43.0


From 45ad2563a2761b2431a5de7c872296677a60bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 50/69] fix: an element's link is its own, not that of an
 enclosing element

---
 svgio/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5ea5956..ab51a23 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1472,7 +1472,7 @@ class Pattern(ContainerElement, Element):
 
     @property
     def href(self):
-        values = Document.get_values(self)
+        values = self.attributes  # Links are not inherited.
         if XLINK_HREF in values:
             return values[XLINK_HREF]
         elif SVG_HREF in values:
@@ -1676,7 +1676,7 @@ class Image(Element, GraphicalElement, Transformable):
 
     @property
     def href(self):
-        values = Document.get_values(self)
+        values = self.attributes  # Links are not inherited.
         if XLINK_HREF in values:
             return values[XLINK_HREF]
         elif SVG_HREF in values:
@@ -1903,7 +1903,7 @@ class Style(Element):
 class Script(Element):
     @property
     def href(self):
-        values = Document.get_values(self)
+        values = self.attributes  # Links are not inherited.
         if XLINK_HREF in values:
             return values[XLINK_HREF]
         elif SVG_HREF in values:
@@ -1919,7 +1919,7 @@ class Hyperlink(ContainerElement, Element):
 
     @property
     def href(self):
-        values = Document.get_values(self)
+        values = self.attributes  # Links are not inherited.
         if XLINK_HREF in values:
             return values[XLINK_HREF]
         elif SVG_HREF in values:
-- 
2.43.0


From 97960151bd8c93f085902f5602fd28d7756a700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 51/69] fix: subpath indices and slices stay inside the
 subpath, steps included

---
 svgio/path.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9d7fdd2..c940949 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2945,17 +2945,18 @@ class Subpath:
             return self._start + index
 
     def index_to_path_index(self, index):
+        size = len(self)
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
-            return slice(start, stop, step)
+            start, stop, step = index.indices(size)
+            if step > 0:
+                stop = max(start, stop)
+            elif start <= stop:
+                return slice(self._start, self._start, step)
+            start += self._start
+            stop += self._start
+            return slice(start, stop if stop >= 0 else None, step)
+        if not -size <= index < size:
+            raise IndexError("subpath index out of range")
         return self._numeric_index(index)
 
     def bbox(self):
@@ -2979,8 +2980,8 @@ class Subpath:
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
-        s = self.index_to_path_index(start)
-        e = self.index_to_path_index(end)
+        s = self._numeric_index(start)
+        e = self._numeric_index(end)
         while s <= e:
             start_segment = segments[s]
             end_segment = segments[e]
@@ -2991,8 +2992,8 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
-        start = self.index_to_path_index(start)
-        end = self.index_to_path_index(end)
+        start = self._numeric_index(start)
+        end = self._numeric_index(end)
         self._path._validate_connection(start - 1, prefer_second=True)
         self._path._validate_connection(end)
 
@@ -3017,8 +3018,9 @@ class Subpath:
         last = self[-1]
         if isinstance(last, Close):
             last.reverse()
-            if last.start != self[-2].end:
-                last.start = Point(self[-2].end)
+            previous = self._path[self._end - 1]
+            if last.start != previous.end:
+                last.start = Point(previous.end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
                 self._path._validate_connection(self._end)
-- 
2.43.0


From 77e28dd82fde88feee7e89240a30f9541b138eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 52/69] fix: a subpath follows a slice assigned to it

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index c940949..b33fb84 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2828,7 +2828,9 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
         size = len(self._path)
-- 
2.43.0


From c706122a061fb51448a8f310710b5395bd11e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 53/69] fix: text + subpath adds the subpath, not its whole
 path

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index b33fb84..debe5c5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2863,7 +2863,7 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, self))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-- 
2.43.0


From f8891c989927aa60b8282c2eb87023cf40debc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 54/69] fix: an arc given by a radius turns clockwise by
 default when it is half a circle

---
 svgio/path.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index debe5c5..2f930b6 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1311,9 +1311,8 @@ class Arc(Curve):
                     mid.x + sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
                     mid.y + sqrt(r ** 2 - hq ** 2) * (self.end.x - self.start.x) / q,
                 )
-                cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "ccw" in kwargs and kwargs["ccw"] and cw or not cw:
-                    # ccw arg exists, is true, and we found the cw center, or we didn't find the cw center.
+                if "ccw" in kwargs and kwargs["ccw"]:
+                    # ccw arg exists, is true, and we found the cw center.
                     self.center = Point(
                         mid.x
                         - sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
-- 
2.43.0


From 57335b1197a6eca3d1aded53a807454c49bbf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 55/69] fix: Color.distinct gives each index its own colour

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 2375a2d..22bd6ab 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1058,6 +1058,8 @@ class Color(object):
 
         def _pattern(pattern: int):
             n = int(pattern ** (1.0 / 3.0))
+            if (n + 1) ** 3 <= pattern:
+                n += 1  # the root of a cube may be rounded down.
             pattern -= n * n * n
             p = [n] * 3
             if pattern == 0:
-- 
2.43.0


From c9d3c0d5da6d7524d16ecfe813139fc2ddefebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 56/69] fix: a convex hull has all its corners and no others

---
 svgio/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 22bd6ab..eed067f 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1792,16 +1792,20 @@ class Point:
     def convex_hull(pts):
         if len(pts) == 0:
             return
-        points = sorted(set(pts), key=lambda p: p[0])
+        points = sorted(set(pts), key=lambda p: (p[0], p[1]))
         first_point_on_hull = points[0]
         point_on_hull = first_point_on_hull
         while True:
             yield point_on_hull
             endpoint = point_on_hull
             for t in points:
+                turn = Point.orientation(point_on_hull, t, endpoint)
                 if (
                     point_on_hull is endpoint
-                    or Point.orientation(point_on_hull, t, endpoint) == 2
+                    or turn == 2
+                    or turn == 0
+                    and Point.distance(point_on_hull, t)
+                    > Point.distance(point_on_hull, endpoint)
                 ):
                     endpoint = t
             point_on_hull = endpoint
-- 
2.43.0


From f1273f54369fba46114f42b46d0474d14908c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 57/69] fix: the text of the absent colour reads back as the
 absent colour

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index eed067f..eb2e776 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -660,7 +660,7 @@ class Color(object):
     @staticmethod
     def parse(color_string):
         """Parse SVG color, will return a set value."""
-        if color_string is None or color_string == SVG_VALUE_NONE:
+        if color_string is None or color_string.lower() == SVG_VALUE_NONE:
             return None
         match = REGEX_COLOR_HEX.match(color_string)
         if match:
-- 
2.43.0


From 00700743b6b6a2957a30c7b575dbd1cb475fd01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 58/69] fix: the repr of a path is the expression that rebuilds
 it

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2f930b6..b736290 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2135,7 +2135,10 @@ class Path(MutableSequence):
         return self.d()
 
     def __repr__(self):
-        return "%s(%s)" % (self.__class__.__name__, self.d())
+        return "%s(%s)" % (
+            self.__class__.__name__,
+            ", ".join(repr(x) for x in self._segments),
+        )
 
     def __eq__(self, other):
         if isinstance(other, str):
-- 
2.43.0


From c995d6b6501044935eac4f1e99848e3b39521813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 59/69] fix: a move made of its end point and flags keeps the
 end point

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index b736290..4c57943 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -545,8 +545,8 @@ class Move(PathSegment):
                 if "end" in kwargs:
                     self.start = args[0]
                     self.end = kwargs["end"]
-                elif "start" in kwargs:
-                    self.start = kwargs["start"]
+                else:
+                    self.start = kwargs.get("start")
                     self.end = args[0]
         elif len(args) == 2:
             self.start = args[0]
-- 
2.43.0


From d681e6a20e6323ae0ddba9f550d55add2a59d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 60/69] fix: iterations over a segment are independent of each
 other

---
 svgio/path.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4c57943..8f06370 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -399,21 +399,10 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        for i in range(len(self)):
+            val = self[i]
+            if val is not None:
+                yield val
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 5d466ae0c7936a920c76aa1437295beb20036a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 61/69] fix: argument and powers of a point are those of the
 complex number

---
 svgio/basic.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index eb2e776..04ac183 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1729,18 +1729,13 @@ class Point:
         return hypot(self.x, self.y)
 
     def __pow__(self, other):
-        r_raised = abs(self) ** other
-        argz_multiplied = self.argz() * other
-
-        real_part = round(r_raised * cos(argz_multiplied))
-        imag_part = round(r_raised * sin(argz_multiplied))
-        return self.__class__(real_part, imag_part)
+        return self.__class__(complex(self) ** other)
 
     def conjugate(self):
         return self.__class__(self.real, -self.imag)
 
     def argz(self):
-        return atan(self.imag / self.real)
+        return atan2(self.imag, self.real)
 
     @property
     def real(self):
-- 
2.43.0


From b3940b269ae448ca01c225848a2ff6cdab31dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 62/69] fix: the iterator of a subpath can itself be iterated

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 8f06370..ea7be60 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2888,6 +2888,9 @@ class Subpath:
                 self.n = subpath._start - 1
                 self.subpath = subpath
 
+            def __iter__(self):
+                return self
+
             def __next__(self):
                 self.n += 1
                 try:
-- 
2.43.0


From 83e91cc753ecfd6b8d686312163d54b17b3ba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 63/69] fix: every segment of one path building call records
 the relative notation

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ea7be60..29f3890 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2477,7 +2477,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2523,7 +2523,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2540,7 +2540,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2563,7 +2563,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2583,7 +2583,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2601,7 +2601,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From da76932ea2b1972ef666e2cd0acae9bb12176260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 64/69] fix: inserting path data inserts all of its segments

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 29f3890..91ba404 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2633,6 +2633,9 @@ class Path(MutableSequence):
             value = Path(value)
             if len(value) == 0:
                 return
+            if len(value) > 1:
+                self[index:index] = value
+                return
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-- 
2.43.0


From d48ecb285d7fc343d9ba3b5a3cf18c0919029e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 65/69] fix: the box of a cubic curve whose cubic term nearly
 vanishes

---
 svgio/path.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 91ba404..a481893 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1041,25 +1041,18 @@ class CubicBezier(Curve):
         """
         local_extremizers = [0, 1]
         a = [c[v] for c in self]
+        # The derivative vanishes where denom * t^2 - 2 * tau * t + a[0] - a[1] = 0.
         denom = a[0] - 3 * a[1] + 3 * a[2] - a[3]
-        if abs(denom) >= 1e-12:
-            delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
-            if delta >= 0:  # otherwise no local extrema
-                sqdelta = sqrt(delta)
-                tau = a[0] - 2 * a[1] + a[2]
-                r1 = (tau + sqdelta) / denom
-                r2 = (tau - sqdelta) / denom
-                if 0 < r1 < 1:
-                    local_extremizers.append(r1)
-                if 0 < r2 < 1:
-                    local_extremizers.append(r2)
-        else:
-            # The cubic term vanishes, the derivative is linear.
-            tau = a[0] - 2 * a[1] + a[2]
-            if tau != 0:
-                r1 = (a[0] - a[1]) / (2.0 * tau)
-                if 0 < r1 < 1:
-                    local_extremizers.append(r1)
+        tau = a[0] - 2 * a[1] + a[2]
+        delta = tau ** 2 - denom * (a[0] - a[1])
+        if delta >= 0:  # otherwise no local extrema
+            # Adding terms of one sign only keeps both roots exact when denom is nearly zero.
+            sqdelta = sqrt(delta)
+            q = tau - sqdelta if tau < 0 else tau + sqdelta
+            if denom != 0 and 0 < q / denom < 1:
+                local_extremizers.append(q / denom)
+            if q != 0 and 0 < (a[0] - a[1]) / q < 1:
+                local_extremizers.append((a[0] - a[1]) / q)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From 2b4eabc0a17d540f02a08eddcc70f4428f73c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 66/69] fix: centre of an arc through three points is computed
 without slopes

The slope of a chord that is upright or level up to rounding is meaningless, so
Arc((0.1,0.2),(7.1,7.2),bulge=1) had its centre at (3.6,5.29), not (3.6,3.7).
---
 svgio/path.py | 47 ++++++++++-------------------------------------
 1 file changed, 10 insertions(+), 37 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index a481893..31d4964 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1238,46 +1238,19 @@ class Arc(Curve):
             if "control" in kwargs:  # Control is any additional point on the arc.
                 control = Point(kwargs["control"])
             if control is not None:
-                delta_a = control - self.start
-                delta_b = self.end - control
-                try:
-                    slope_a = delta_a.y / delta_a.x
-                except ZeroDivisionError:
-                    slope_a = float("inf")
-                try:
-                    slope_b = delta_b.y / delta_b.x
-                except ZeroDivisionError:
-                    slope_b = float("inf")
-                ab_mid = Point.towards(self.start, control, 0.5)
-                bc_mid = Point.towards(control, self.end, 0.5)
-                if delta_a.y == 0:  # slope_a == 0
-                    cx = ab_mid.x
-                    if delta_b.x == 0:  # slope_b == inf
-                        cy = bc_mid.y
-                    else:
-                        cy = bc_mid.y + (bc_mid.x - cx) / slope_b
-                elif delta_b.y == 0:  # slope_b == 0
-                    cx = bc_mid.x
-                    if delta_a.y == 0:  # slope_a == inf
-                        cy = ab_mid.y
-                    else:
-                        cy = ab_mid.y + (ab_mid.x - cx) / slope_a
-                elif delta_a.x == 0:  # slope_a == inf
-                    cy = ab_mid.y
-                    cx = slope_b * (bc_mid.y - cy) + bc_mid.x
-                elif delta_b.x == 0:  # slope_b == inf
-                    cy = bc_mid.y
-                    cx = slope_a * (ab_mid.y - cy) + ab_mid.x
-                elif slope_a == slope_b:
+                # The center is equally far from all three points.
+                ax, ay = self.start.x - control.x, self.start.y - control.y
+                bx, by = self.end.x - control.x, self.end.y - control.y
+                d = 2.0 * (ax * by - ay * bx)
+                if d == 0:  # The points are on one line.
+                    ab_mid = Point.towards(self.start, control, 0.5)
                     cx = ab_mid.x
                     cy = ab_mid.y
                 else:
-                    cx = (
-                        slope_a * slope_b * (ab_mid.y - bc_mid.y)
-                        - slope_a * bc_mid.x
-                        + slope_b * ab_mid.x
-                    ) / (slope_b - slope_a)
-                    cy = ab_mid.y - (cx - ab_mid.x) / slope_a
+                    aa = ax * ax + ay * ay
+                    bb = bx * bx + by * by
+                    cx = control.x + (by * aa - ay * bb) / d
+                    cy = control.y + (ax * bb - bx * aa) / d
                 self.center = Point(cx, cy)
                 cw = bool(Point.orientation(self.start, control, self.end) == 2)
             elif "r" in kwargs:
-- 
2.43.0


From c86a9a3990bdee76bbe70c6e0a4fd66a4e092950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 67/69] fix: the sweep of an SVG arc with nearly equal or
 opposite ends is found with its digits

---
 svgio/path.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 31d4964..7a84efd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1628,18 +1628,7 @@ class Arc(Curve):
         #     theta = -theta
         # theta = theta % 360
 
-        n = sqrt((ux * ux + uy * uy) * (vx * vx + vy * vy))
-        p = ux * vx + uy * vy
-        d = p / n
-        # In certain cases the above calculation can through inaccuracies
-        # become just slightly out of range, f ex -1.0000000000000002.
-        if d > 1.0:
-            d = 1.0
-        elif d < -1.0:
-            d = -1.0
-        delta = degrees(acos(d))
-        if (ux * vy - uy * vx) < 0:
-            delta = -delta
+        delta = degrees(atan2(ux * vy - uy * vx, ux * vx + uy * vy))
         delta = delta % 360
         if not sweep_flag:
             delta -= 360
-- 
2.43.0


From 2d73f127aa90996835443e36c6410c8b11e9fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 68/69] fix: arcs whose radii are too short are centred on the
 middle of their chord

---
 svgio/path.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 7a84efd..25e8b3b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1600,13 +1600,9 @@ class Arc(Curve):
         if radius_check > 1:
             rx *= sqrt(radius_check)
             ry *= sqrt(radius_check)
-            rx_sq = rx * rx
-            ry_sq = ry * ry
-
-        t1 = rx_sq * y1prim_sq
-        t2 = ry_sq * x1prim_sq
-        c = sqrt(abs((rx_sq * ry_sq - t1 - t2) / (t1 + t2)))
+            radius_check = 1.0  # The center is the middle of the chord.
 
+        c = sqrt(1.0 / radius_check - 1.0)
         if large_arc_flag == sweep_flag:
             c = -c
         cxprim = c * rx * y1prim / ry
-- 
2.43.0


From 8c1c007e9a15651962ab712daa17908ff83cda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 69/69] fix: arc data names the radii and the rotation to
 twelve digits

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 25e8b3b..ac1d9d4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1896,7 +1896,7 @@ class Arc(Curve):
             or (relative is None and self.relative)
             or (relative is not None and not relative)
         ):
-            return "A %G,%G %G %d,%d %s" % (
+            return "A %.12G,%.12G %.12G %d,%d %s" % (
                 self.rx,
                 self.ry,
                 self.get_rotation().as_degrees,
@@ -1905,7 +1905,7 @@ class Arc(Curve):
                 self.end,
             )
         else:
-            return "a %G,%G %G %d,%d %s" % (
+            return "a %.12G,%.12G %.12G %d,%d %s" % (
                 self.rx,
                 self.ry,
                 self.get_rotation().as_degrees,
-- 
2.43.0

