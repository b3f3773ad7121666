From c92c6f52f6d2022310cc5124c85039227283661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 01/81] fix: write_gerber_value emitted one digit too many for
 formats without integer or decimal digits

---
 gerber/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..bf81003 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -148,6 +148,12 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
     digits = [val for val in fmtstring % value if val != '.']
 
+    # The format string always produces at least one integer digit and reserves
+    # room for a decimal point, which is one digit too many for formats without
+    # integer or decimal digits
+    while len(digits) > MAX_DIGITS and digits[0] == '0':
+        digits.pop(0)
+
     # If all the digits are 0, return '0'.
     digit_sum = sum([int(digit) for digit in digits])
     if digit_sum == 0:
-- 
2.43.0


From 2c0c4348b0b0002b119476f6a6de0a5b5bba2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 02/81] fix: unit conversion skipped one-element collections
 (regions, outlines and macro groups with a single part)

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..6b850e1 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From 61dfe1456f4fb68b80cd565eb8c519eab2c8e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 03/81] fix: outlines of aperture macros were not converted
 between units

---
 gerber/am_statements.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..2fa50ca 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -320,14 +320,14 @@ class AMVectorLinePrimitive(AMPrimitive):
         line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
         vertices = line.vertices
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(vertices[-1], self.rotation, (0, 0))
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
@@ -443,7 +443,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0, units=units), units=units))
 
             prev_point = cur_point
 
@@ -806,7 +806,7 @@ class AMThermalPrimitive(AMPrimitive):
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
 
         outlines = []
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
                 + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
@@ -821,7 +821,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, self.position)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
 
             prev_point = cur_point
 
@@ -933,14 +933,14 @@ class AMCenterLinePrimitive(AMPrimitive):
         points.append((x + half_width, y - half_height))
         points.append((x + half_width, y + half_height))
 
-        aperture = Circle((0, 0), 0)
+        aperture = Circle((0, 0), 0, units=units)
 
         lines = []
         prev_point = rotate_point(points[3], self.rotation, self.center)
         for point in points:
             cur_point = rotate_point(point, self.rotation, self.center)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
-- 
2.43.0


From 4fbd09c59802d11f2db8b080305ff6595f147166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 04/81] fix: outlines of vector lines, center lines and
 thermals did not follow the shape's boundary

---
 gerber/am_statements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 2fa50ca..1c2a500 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -329,6 +329,8 @@ class AMVectorLinePrimitive(AMPrimitive):
 
             lines.append(Line(prev_point, cur_point, aperture, units=units))
 
+            prev_point = cur_point
+
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
 
@@ -823,7 +825,7 @@ class AMThermalPrimitive(AMPrimitive):
 
                 lines.append(Line(prev_point, cur_point, aperture, units=units))
 
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -942,6 +944,8 @@ class AMCenterLinePrimitive(AMPrimitive):
 
             lines.append(Line(prev_point, cur_point, aperture, units=units))
 
+            prev_point = cur_point
+
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
 
-- 
2.43.0


From 48bfa0c41d3937baf214c83ed97b745c73c77d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 05/81] fix: bounding boxes of rotated rectangles, diamonds and
 obrounds were too small beyond 90 degrees

---
 gerber/primitives.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 6b850e1..c6551d5 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -758,11 +758,11 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta * self.width) + abs(self._sin_theta * self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta * self.height) + abs(self._sin_theta * self.width))
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -853,11 +853,11 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta * self.width) + abs(self._sin_theta * self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta * self.height) + abs(self._sin_theta * self.width))
 
 
 class ChamferRectangle(Primitive):
@@ -970,13 +970,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta * self.width) +
+                abs(self._sin_theta * self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta * self.height) +
+                abs(self._sin_theta * self.width))
 
 
 class RoundRectangle(Primitive):
@@ -1054,13 +1054,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta * self.width) +
+                abs(self._sin_theta * self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta * self.height) +
+                abs(self._sin_theta * self.width))
 
 
 class Obround(Primitive):
@@ -1155,13 +1155,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta * self.width) +
+                abs(self._sin_theta * self.height))
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta * self.height) +
+                abs(self._sin_theta * self.width))
 
 
 class Polygon(Primitive):
-- 
2.43.0


From c259270b082c387e38ccec342ca926703be886ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 06/81] fix: bounding boxes of slots, butterflies and donuts
 went stale when moved or resized

---
 gerber/primitives.py | 142 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 122 insertions(+), 20 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index c6551d5..8411024 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1460,16 +1460,32 @@ class RoundButterfly(Primitive):
     def __init__(self, position, diameter, **kwargs):
         super(RoundButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.diameter = diameter
+        self._position = position
+        self._diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def radius(self):
         return self.diameter / 2.
@@ -1492,16 +1508,32 @@ class SquareButterfly(Primitive):
     def __init__(self, position, side, **kwargs):
         super(SquareButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.side = side
+        self._position = position
+        self._side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def side(self):
+        return self._side
+
+    @side.setter
+    def side(self, value):
+        self._changed()
+        self._side = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1521,7 +1553,7 @@ class Donut(Primitive):
                  outer_diameter, **kwargs):
         super(Donut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if shape not in ('round', 'square', 'hexagon', 'octagon'):
             raise ValueError(
                 'Valid shapes are round, square, hexagon or octagon')
@@ -1532,22 +1564,47 @@ class Donut(Primitive):
         self.inner_diameter = inner_diameter
         self.outer_diameter = outer_diameter
         if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
+            self._width = outer_diameter
+            self._height = outer_diameter
         else:
             # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
+            self._width = 0.5 * math.sqrt(3.) * outer_diameter
+            self._height = outer_diameter
 
         self._to_convert = ['position', 'width',
                             'height', 'inner_diameter', 'outer_diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
@@ -1576,18 +1633,36 @@ class SquareRoundDonut(Primitive):
     def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
         super(SquareRoundDonut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
         self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
+        self._outer_diameter = outer_diameter
         self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1658,9 +1733,9 @@ class Slot(Primitive):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
         validate_coordinates(end)
-        self.start = start
-        self.end = end
-        self.diameter = diameter
+        self._start = start
+        self._end = end
+        self._diameter = diameter
         self._to_convert = ['start', 'end', 'diameter']
 
 
@@ -1668,6 +1743,33 @@ class Slot(Primitive):
     def flashed(self):
         return False
 
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-- 
2.43.0


From b60bfb8bd5573530b373f9f4160dc987301cdbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 07/81] fix: vertices of rotated shapes were turned about the
 origin instead of the shape's center

---
 gerber/primitives.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 8411024..2b12aa4 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -751,9 +751,8 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [ll, ul, ur, lr]]
         return self._vertices
 
     @property
@@ -846,9 +845,8 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [top, right, bottom, left]]
         return self._vertices
 
     @property
@@ -963,9 +961,8 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in vertices]
         return self._vertices
 
     @property
-- 
2.43.0


From 4983b93c31153855fe0bcae5993b76b535ed07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 08/81] fix: unit conversion scaled the vertex count and
 rotation of polygon apertures

---
 gerber/gerber_statements.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..2a1f83e 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -355,16 +355,22 @@ class ADParamStmt(ParamStmt):
         else:
             self.modifiers = [tuple()]
 
+    def _is_length(self, index):
+        # The vertex count and rotation of a polygon are not lengths
+        return not (self.shape == 'P' and index in (1, 2))
+
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
+            self.modifiers = [tuple([inch(x) if self._is_length(i) else x
+                                     for i, x in enumerate(modifier)])
                               for modifier in self.modifiers]
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
+            self.modifiers = [tuple([metric(x) if self._is_length(i) else x
+                                     for i, x in enumerate(modifier)])
                               for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
-- 
2.43.0


From 85d28e81d6c3fe52751596c77dfb51ac3d6249a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 09/81] fix: unit conversion left the depth offset of drill
 tools unscaled

---
 gerber/excellon_statements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..cedfd27 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -240,12 +240,16 @@ class ExcellonTool(ExcellonStatement):
             self.settings.units = 'inch'
             if self.diameter is not None:
                 self.diameter = inch(self.diameter)
+            if self.depth_offset is not None:
+                self.depth_offset = inch(self.depth_offset)
 
     def to_metric(self):
         if self.settings.units != 'metric':
             self.settings.units = 'metric'
             if self.diameter is not None:
                 self.diameter = metric(self.diameter)
+            if self.depth_offset is not None:
+                self.depth_offset = metric(self.depth_offset)
 
     def _hit(self):
         self.hit_count += 1
-- 
2.43.0


From 1aabebdcb43aaea772964fce1df3a1ecc0c6a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 10/81] fix: bounding box of single-quadrant arcs left out the
 axis points they sweep over

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 2b12aa4..8fa61af 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -412,7 +412,7 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -467,7 +467,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From 2c09c63fea4fd976b172faf3c9754e5d3c8e4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 11/81] fix: bounding box of arcs drawn with rectangular
 apertures was widened by the full aperture

---
 gerber/primitives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 8fa61af..1c98674 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -452,10 +452,10 @@ class Arc(Primitive):
                 min_y = min(y) - self.aperture.radius
                 max_y = max(y) + self.aperture.radius
             else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
+                min_x = min(x) - self.aperture.width / 2.
+                max_x = max(x) + self.aperture.width / 2.
+                min_y = min(y) - self.aperture.height / 2.
+                max_y = max(y) + self.aperture.height / 2.
 
             self._bounding_box = ((min_x, max_x), (min_y, max_y))
         return self._bounding_box
-- 
2.43.0


From 6f27396a441c80d88fe0ab0261407ab08a6fa7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 12/81] fix: bounding boxes of lines and arcs went stale when
 the aperture or direction was replaced

---
 gerber/primitives.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 1c98674..c445318 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -211,7 +211,7 @@ class Line(Primitive):
         self.level_polarity = level_polarity
         self._start = start
         self._end = end
-        self.aperture = aperture
+        self._aperture = aperture
         self._to_convert = ['start', 'end', 'aperture']
 
     @property
@@ -236,6 +236,15 @@ class Line(Primitive):
         self._changed()
         self._end = value
 
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def angle(self):
         delta_x, delta_y = tuple(
@@ -331,8 +340,8 @@ class Arc(Primitive):
         self._start = start
         self._end = end
         self._center = center
-        self.direction = direction
-        self.aperture = aperture
+        self._direction = direction
+        self._aperture = aperture
         self._quadrant_mode = quadrant_mode
         self._to_convert = ['start', 'end', 'center', 'aperture']
 
@@ -367,6 +376,24 @@ class Arc(Primitive):
         self._changed()
         self._center = value
 
+    @property
+    def direction(self):
+        return self._direction
+
+    @direction.setter
+    def direction(self, value):
+        self._changed()
+        self._direction = value
+
+    @property
+    def aperture(self):
+        return self._aperture
+
+    @aperture.setter
+    def aperture(self, value):
+        self._changed()
+        self._aperture = value
+
     @property
     def quadrant_mode(self):
         return self._quadrant_mode
-- 
2.43.0


From 88062ac60e859e54eacfa51706153c9070695972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 13/81] fix: vertices of lines drawn with polygon apertures and
 the width of outlines raised TypeError

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index c445318..448155a 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -299,7 +299,7 @@ class Line(Primitive):
                 # The line is defined by the convex hull of the points
                 self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
             elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
+                points = [tuple(map(add, point, vertex))
                           for vertex in self.aperture.vertices
                           for point in (start, end)]
                 self._vertices = convex_hull(points)
@@ -1427,7 +1427,7 @@ class Outline(Primitive):
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
-- 
2.43.0


From 87835485f3569c4ee5195e2f901ab93ed5350bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 14/81] fix: vertices of outlines raised AttributeError

---
 gerber/primitives.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 448155a..a5545ff 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1416,13 +1416,7 @@ class Outline(Primitive):
     @property
     def vertices(self):
         if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
+            self._vertices = [p.start for p in self.primitives]
         return self._vertices
 
     @property
-- 
2.43.0


From e9f207ec72c8d86ebef94861977358436ee48f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 15/81] fix: convex hull of points with duplicates lost corners

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index bf81003..c1051ef 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -460,5 +460,7 @@ def _findhull(idxp, a_i, b_i, points):
 
 
 def convex_hull(points):
+    points = [point for idx, point in enumerate(points)
+              if point not in points[:idx]]
     vertices = ConvexHull_qh(points)
     return [points[idx] for idx in vertices]
-- 
2.43.0


From e12debf79a717a7a74556b8eb917069a304c26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 16/81] fix: sweep of counterclockwise arcs crossing zero
 degrees was that of the complement

---
 gerber/primitives.py | 2 +-
 gerber/rs274x.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index a5545ff..fe2899c 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -427,7 +427,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
+            return (theta1 - theta0) % two_pi
         else:
             theta0 += two_pi
             return abs(theta0 - theta1) % two_pi
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..8aee439 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -757,7 +757,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From 98a7db64d2d6922ef779b0bf7b006543ddfeee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 17/81] fix: region contours made of a single arc were dropped
 when another contour followed

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 8aee439..43b9d41 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -698,7 +698,7 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                if self.current_region:
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From f5fa1a2fb341b514a79e5f8da61f2cc80f33d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 18/81] fix: reading an MI or OF statement that names only one
 axis raised TypeError

---
 gerber/gerber_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 2a1f83e..62764cd 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -626,8 +626,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -674,8 +674,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
-- 
2.43.0


From 484a07a046e45765349ceac2f8596142b3128b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 19/81] fix: the factors of scale factor statements were
 discarded when read

---
 gerber/gerber_statements.py | 4 ++--
 gerber/rs274x.py            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 62764cd..a64b7e2 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -748,8 +748,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 43b9d41..c531a85 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -205,7 +205,7 @@ class GerberParser(object):
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?(?P<discarded>.*)".format(decimal=DECIMAL)
     LN = r"(?P<param>LN)(?P<name>.*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
-- 
2.43.0


From 8e53bc62b4f7f1021459a2d44377eb3cb1406f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 20/81] fix: aperture definitions were written with only four
 significant digits

---
 gerber/gerber_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index a64b7e2..48b7722 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -375,7 +375,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.10g" % x for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
-- 
2.43.0


From f36f70ee659ff0f31a8b379ea4be35d83ab6ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 21/81] fix: decimal_string returned a truncated exponent for
 small and large values

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index c1051ef..ec8c1dc 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -191,6 +191,8 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        floatstr = '%.*f' % (precision, value)
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From 0420ba0236d78a48a24681a0ed63a2692a4862ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 22/81] fix: apertures naming a macro whose name starts with C
 were read as circles

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index c531a85..3ad2cf8 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,7 +188,7 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,%]*))?"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-- 
2.43.0


From 71ad6af095e34a751732cbef5366dc15d3147273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 23/81] fix: macros with one-letter names were not recognised

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 3ad2cf8..a146b91 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -183,7 +183,7 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
-- 
2.43.0


From a909a1a8eff918947f455c41631d9083db6677ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 24/81] fix: the last command of files without a final line
 break was lost

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index a146b91..44191b1 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -307,6 +307,10 @@ class GerberParser(object):
                 start = cur + 1
                 in_header = False
 
+        # the last command may lack its line break
+        if start < length:
+            yield data[start:length]
+
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
         return json.dumps(stmts)
-- 
2.43.0


From 08f33c3bbf4aab3310c9d138a653ef19a921af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 25/81] fix: commands on the same line after an unknown or
 deprecated one were swallowed

---
 gerber/rs274x.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 44191b1..489cae0 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -462,7 +462,7 @@ class GerberParser(object):
 
                 (deprecated_format, r) = _match_one(self.DEPRECATED_FORMAT, line)
                 if deprecated_format:
-                    yield DeprecatedStmt.from_gerber(line)
+                    yield DeprecatedStmt.from_gerber(line[:len(line) - len(r)])
                     line = r
                     did_something = True
                     continue
@@ -476,9 +476,10 @@ class GerberParser(object):
                     continue
 
                 if line.find('*') > 0:
-                    yield UnknownStmt(line)
+                    end = line.find('%', 1) if line[0] == '%' else line.find('*')
+                    yield UnknownStmt(line[:end + 1])
                     did_something = True
-                    line = ""
+                    line = line[end + 1:]
                     continue
 
             oldline = line
-- 
2.43.0


From e4fc0b4085bcef5c86f82d8deb87c6399e24a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 26/81] fix: names and modifiers in combined parameter blocks
 swallowed the parameters after them

---
 gerber/rs274x.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 489cae0..37c45ce 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -188,25 +188,25 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,%]*))?"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,%*]*))?"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%*]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%*]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%*]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%*]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?(?P<discarded>.*)".format(decimal=DECIMAL)
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?(?P<discarded>[^*]*)".format(decimal=DECIMAL)
+    LN = r"(?P<param>LN)(?P<name>[^*]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
-- 
2.43.0


From 819d1cc515ced7727bd08c4bc3e0412446ee7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 27/81] fix: subtraction in aperture macros always gave zero

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From 15532f78c8ad50915c41eceaa2799d577e6503e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 28/81] fix: variables assigned in one aperture macro leaked
 into the next evaluation

---
 gerber/am_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index e517ecd..7862c21 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -59,6 +59,9 @@ def eval_macro(instructions, parameters={}):
             p[i + 1] = val
 
         parameters = p
+    else:
+        # assignments are local to the macro
+        parameters = dict(parameters)
 
     stack = []
 
-- 
2.43.0


From f81f5ad0a6dbacc408af1915c793c2358009bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 29/81] fix: signs and leading zeros in aperture macro
 expressions were misread

---
 gerber/am_read.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..87c240c 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -170,18 +170,25 @@ def read_macro(macro):
                 unary_minus_allowed = True
 
             elif c in Token.OPERATORS:
-                if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
-                    unary_minus_allowed = False
+                if unary_minus_allowed and c in (Token.ADD, Token.SUB):
+                    if c == Token.SUB:
+                        if scanner.peek() in string.digits + ".":
+                            unary_minus = True
+                        else:
+                            # negation of a variable or parenthesis
+                            instructions.append((OpCode.PUSH, -1))
+                            push(Token.MULT[0])
                     continue
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
                     instructions.append((token_to_opcode(pop()), None))
 
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.LEFT_PARENS:
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
@@ -192,6 +199,7 @@ def read_macro(macro):
 
                 # discard "("
                 pop()
+                unary_minus_allowed = False
 
             elif c.startswith("$"):
                 n = scanner.readint()
@@ -200,20 +208,17 @@ def read_macro(macro):
                     equation_left_side = n
                 else:
                     instructions.append((OpCode.LOAD, n))
+                    unary_minus_allowed = False
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                unary_minus_allowed = True
 
-            elif c == "0":
-                if is_primitive and not found_primitive_code:
-                    instructions.append((OpCode.PUSH, scanner.readstr("*")))
-                    found_primitive_code = True
-                else:
-                    # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
-                        instructions.append((OpCode.PUSH, 0))
+            elif c == "0" and is_primitive and not found_primitive_code:
+                instructions.append((OpCode.PUSH, scanner.readstr("*")))
+                found_primitive_code = True
 
-            elif c in "123456789.":
+            elif c in "0123456789.":
                 scanner.ungetc()
 
                 if is_primitive and not found_primitive_code:
@@ -225,6 +230,7 @@ def read_macro(macro):
                         n *= -1
 
                     instructions.append((OpCode.PUSH, n))
+                    unary_minus_allowed = False
             else:
                 # whitespace or unknown char
                 pass
-- 
2.43.0


From 8360d71b7378594103e90803ae6a8872b0af89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 30/81] fix: aperture macro comments with an equals sign were
 read as assignments

---
 gerber/am_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 87c240c..3c1be2f 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -134,7 +134,7 @@ def read_macro(macro):
         unary_minus_allowed = False
         unary_minus = False
 
-        if Token.EQUALS in block:
+        if Token.EQUALS in block and block.lstrip().startswith("$"):
             is_equation = True
         else:
             is_primitive = True
-- 
2.43.0


From f5156ce341523bca72900e1af3a375e7d82bbd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 31/81] fix: aperture macro primitives were written with only
 four or six significant digits

---
 gerber/am_statements.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 1c2a500..38207f8 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -428,8 +428,8 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.6g,%.6g" % self.start_point,
-            points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
+            start_point="%.10g,%.10g" % self.start_point,
+            points=",\n".join(["%.10g,%.10g" % point for point in self.points]),
             rotation=str(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
@@ -541,8 +541,8 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
+            position="%.10g,%.10g" % self.position,
+            diameter='%.10g' % self.diameter,
             rotation=str(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
@@ -650,7 +650,7 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position="%.10g,%.10g" % self.position,
             diameter=self.diameter,
             ring_thickness=self.ring_thickness,
             gap=self.gap,
@@ -743,7 +743,7 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position="%.10g,%.10g" % self.position,
             outer_diameter=self.outer_diameter,
             inner_diameter=self.inner_diameter,
             gap=self.gap,
@@ -916,7 +916,7 @@ class AMCenterLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            center="%.4g,%.4g" % self.center,
+            center="%.10g,%.10g" % self.center,
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
@@ -1024,7 +1024,7 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
+            lower_left="%.10g,%.10g" % self.lower_left,
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
-- 
2.43.0


From c46cd20d3cb041c13aefbc18f3d64ce26ba97aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 32/81] fix: comments of evaluated aperture macros started with
 a comma

---
 gerber/am_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 38207f8..fe88d88 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -121,6 +121,9 @@ class AMCommentPrimitive(AMPrimitive):
         primitive = primitive.strip()
         code = int(primitive[0])
         comment = primitive[1:]
+        if comment.startswith(','):
+            # separates the code from the text in evaluated macros
+            comment = comment[1:]
         return cls(code, comment)
 
     def __init__(self, code, comment):
-- 
2.43.0


From 4e7ba84e7c3c477888efae250f4015356e5a918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 33/81] fix: rotations of rectangles were converted to degrees
 twice for aperture macros

---
 gerber/am_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index fe88d88..0047ff0 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -879,7 +879,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         width = primitive.width
         height = primitive.height
         center = primitive.position
-        rotation = math.degrees(primitive.rotation)
+        rotation = primitive.rotation
         return cls(21, 'on', width, height, center, rotation)
 
     @classmethod
-- 
2.43.0


From 5739c5de90d0afe2f8aecd73651723aac0c7fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 34/81] fix: vector lines of aperture macros were drawn too
 long, and too wide when not along an axis

---
 gerber/am_statements.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 0047ff0..456a868 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -319,9 +319,18 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # Half the width, perpendicular to the line
+        dx = self.end[0] - self.start[0]
+        dy = self.end[1] - self.start[1]
+        length = math.sqrt(dx * dx + dy * dy)
+        half = self.width / 2.0 / length if length else 0
+        offx = -dy * half
+        offy = dx * half
+
+        vertices = [(self.start[0] + offx, self.start[1] + offy),
+                    (self.start[0] - offx, self.start[1] - offy),
+                    (self.end[0] - offx, self.end[1] - offy),
+                    (self.end[0] + offx, self.end[1] + offy)]
 
         aperture = Circle((0, 0), 0, units=units)
 
-- 
2.43.0


From 7c4d70ae1c896b3cc57498370e1a2409abb573fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 35/81] fix: thermals whose gaps cover the inner circle could
 not be drawn

---
 gerber/am_statements.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 456a868..d5941c6 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -809,20 +809,26 @@ class AMThermalPrimitive(AMPrimitive):
         outer_radius = self.outer_diameter / 2.0
 
         # Calculate the start angle relative to the horizontal axis
-        inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
         outer_offset_angle = asin(self.gap / 2.0 / outer_radius)
 
         rotation_rad = math.radians(self.rotation)
-        inner_start_angle = inner_offset_angle + rotation_rad
-        inner_end_angle =  math.pi / 2 - inner_offset_angle + rotation_rad
-
         outer_start_angle = outer_offset_angle + rotation_rad
         outer_end_angle = math.pi / 2 - outer_offset_angle + rotation_rad
 
         outlines = []
         aperture = Circle((0, 0), 0, units=units)
 
-        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
+        if self.gap / 2.0 * math.sqrt(2) < inner_radius:
+            inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
+            inner_start_angle = inner_offset_angle + rotation_rad
+            inner_end_angle =  math.pi / 2 - inner_offset_angle + rotation_rad
+            points = self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
+        else:
+            # The gaps cover the whole inner circle, each section ends in the corner between two of them
+            corner = (self.position[0] + self.gap / 2.0, self.position[1] + self.gap / 2.0)
+            points = [rotate_point(corner, self.rotation, self.position)]
+
+        points = (points
                 + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
         # Add in the last point since outlines should be closed
         points.append(points[0])
-- 
2.43.0


From 53b0d420c1168d968ae0a5965842af74d5416633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 36/81] fix: small numbers in aperture macro primitives were
 written with exponents, which macros cannot have

---
 gerber/am_statements.py | 77 ++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index d5941c6..85576c5 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -31,6 +31,13 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _decimal(value, fmt='%s'):
+    """ Write a number without exponent: macros can not have one.
+    """
+    text = fmt % value
+    return '%.10f' % value if 'e' in text else text
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -215,9 +222,9 @@ class AMCirclePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(code=self.code,
                     exposure='1' if self.exposure == 'on' else 0,
-                    diameter=self.diameter,
-                    x=self.position[0],
-                    y=self.position[1])
+                    diameter=_decimal(self.diameter),
+                    x=_decimal(self.position[0]),
+                    y=_decimal(self.position[1]))
         return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
 
     def to_primitive(self, units):
@@ -304,12 +311,12 @@ class AMVectorLinePrimitive(AMPrimitive):
         fmtstr = '{code},{exp},{width},{startx},{starty},{endx},{endy},{rotation}*'
         data = dict(code=self.code,
                     exp=1 if self.exposure == 'on' else 0,
-                    width=self.width,
-                    startx=self.start[0],
-                    starty=self.start[1],
-                    endx=self.end[0],
-                    endy=self.end[1],
-                    rotation=self.rotation)
+                    width=_decimal(self.width),
+                    startx=_decimal(self.start[0]),
+                    starty=_decimal(self.start[1]),
+                    endx=_decimal(self.end[0]),
+                    endy=_decimal(self.end[1]),
+                    rotation=_decimal(self.rotation))
         return fmtstr.format(**data)
 
     def to_primitive(self, units):
@@ -440,9 +447,9 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.10g,%.10g" % self.start_point,
-            points=",\n".join(["%.10g,%.10g" % point for point in self.points]),
-            rotation=str(self.rotation)
+            start_point=",".join([_decimal(x, "%.10g") for x in self.start_point]),
+            points=",\n".join([",".join([_decimal(x, "%.10g") for x in point]) for point in self.points]),
+            rotation=_decimal(self.rotation)
         )
         return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
 
@@ -553,9 +560,9 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.10g,%.10g" % self.position,
-            diameter='%.10g' % self.diameter,
-            rotation=str(self.rotation)
+            position=",".join([_decimal(x, "%.10g") for x in self.position]),
+            diameter=_decimal(self.diameter, '%.10g'),
+            rotation=_decimal(self.rotation)
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
         return fmt.format(**data)
@@ -662,14 +669,14 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.10g,%.10g" % self.position,
-            diameter=self.diameter,
-            ring_thickness=self.ring_thickness,
-            gap=self.gap,
+            position=",".join([_decimal(x, "%.10g") for x in self.position]),
+            diameter=_decimal(self.diameter),
+            ring_thickness=_decimal(self.ring_thickness),
+            gap=_decimal(self.gap),
             max_rings=self.max_rings,
-            crosshair_thickness=self.crosshair_thickness,
-            crosshair_length=self.crosshair_length,
-            rotation=self.rotation
+            crosshair_thickness=_decimal(self.crosshair_thickness),
+            crosshair_length=_decimal(self.crosshair_length),
+            rotation=_decimal(self.rotation),
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
         return fmt.format(**data)
@@ -755,11 +762,11 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.10g,%.10g" % self.position,
-            outer_diameter=self.outer_diameter,
-            inner_diameter=self.inner_diameter,
-            gap=self.gap,
-            rotation=self.rotation
+            position=",".join([_decimal(x, "%.10g") for x in self.position]),
+            outer_diameter=_decimal(self.outer_diameter),
+            inner_diameter=_decimal(self.inner_diameter),
+            gap=_decimal(self.gap),
+            rotation=_decimal(self.rotation),
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
         return fmt.format(**data)
@@ -932,10 +939,10 @@ class AMCenterLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            center="%.10g,%.10g" % self.center,
-            rotation=self.rotation
+            width = _decimal(self.width),
+            height = _decimal(self.height),
+            center=",".join([_decimal(x, "%.10g") for x in self.center]),
+            rotation=_decimal(self.rotation),
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
         return fmt.format(**data)
@@ -1040,10 +1047,10 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         data = dict(
             code=self.code,
             exposure = '1' if self.exposure == 'on' else '0',
-            width = self.width,
-            height = self.height,
-            lower_left="%.10g,%.10g" % self.lower_left,
-            rotation=self.rotation
+            width = _decimal(self.width),
+            height = _decimal(self.height),
+            lower_left=",".join([_decimal(x, "%.10g") for x in self.lower_left]),
+            rotation=_decimal(self.rotation),
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return fmt.format(**data)
-- 
2.43.0


From 801d183910b723f15675f9788bab694dabf15540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 37/81] fix: holes of rectangular and obround line apertures
 were dropped, and polygon ones rejected, by Rs274xContext

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..9ee8f1c 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -161,9 +161,11 @@ class Rs274xContext(GerberContext):
             if isinstance(aperture, Circle):
                 aper = self._get_circle(aperture.diameter, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Rectangle):
-                aper = self._get_rectangle(aperture.width, aperture.height)
+                aper = self._get_rectangle(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, Obround):
-                aper = self._get_obround(aperture.width, aperture.height)
+                aper = self._get_obround(aperture.width, aperture.height, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
+            elif isinstance(aperture, Polygon):
+                aper = self._get_polygon(aperture.radius, aperture.sides, aperture.rotation, aperture.hole_diameter, aperture.hole_width, aperture.hole_height)
             elif isinstance(aperture, AMGroup):
                 aper = self._get_amacro(aperture)
             else:
-- 
2.43.0


From 1bfde9c302e80076074c4f24401b45c9610c2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 38/81] fix: lines without length that stand alone (dots) were
 dropped by Rs274xContext

---
 gerber/render/rs274x_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 9ee8f1c..cbf0ecd 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -201,8 +201,11 @@ class Rs274xContext(GerberContext):
 
         point = self._simplify_point(line.end)
 
-        # In some files, we see a lot of duplicated ponts, so omit those
-        if point[0] != None or point[1] != None:
+        # In some files, we see a lot of duplicated ponts, so omit those, unless
+        # the line is a dot that does not continue something drawn before
+        last = self.body[-1] if self.body else None
+        drawn = isinstance(last, CoordStmt) and last.op == CoordStmt.OP_DRAW
+        if point[0] != None or point[1] != None or not drawn:
             self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
             self._pos = line.end
         elif func:
-- 
2.43.0


From 45cca3bb51dd4a400a51fefc87679de75e48b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 39/81] fix: macro shapes that differ in exposure or in the
 rotation of polygons were taken to be the same

---
 gerber/primitives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index fe2899c..2ebbc9a 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -612,7 +612,7 @@ class Circle(Primitive):
         if not isinstance(other, Circle):
             return False
 
-        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
+        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter or self.level_polarity != other.level_polarity:
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -796,7 +796,7 @@ class Rectangle(Primitive):
         if not isinstance(other, Rectangle):
             return False
 
-        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter or self.level_polarity != other.level_polarity:
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -1269,7 +1269,7 @@ class Polygon(Primitive):
         """
 
         # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
+        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius or self.rotation != other.rotation or self.level_polarity != other.level_polarity:
             return False
 
         equiv_pos = tuple(map(add, other.position, offset))
@@ -1430,7 +1430,7 @@ class Outline(Primitive):
         '''
 
         # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or len(self.primitives) != len(other.primitives):
+        if type(self) != type(other) or len(self.primitives) != len(other.primitives) or self.level_polarity != other.level_polarity:
             return False
 
         for i in range(0, len(self.primitives)):
-- 
2.43.0


From 82eb77dbfcae130581fdbae22a2462380377c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 40/81] fix: different macros with the same hash were defined
 under the same name by Rs274xContext

---
 gerber/render/rs274x_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index cbf0ecd..c198495 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -468,12 +468,14 @@ class Rs274xContext(GerberContext):
 
             # Create the statements
             # TODO
+            # The name has to tell it from other macros with the same hash
+            name = '%s_%d' % (hash, len(macroinfo)) if macroinfo else hash
             amrenderer = AMGroupContext()
-            statement = amrenderer.render(amgroup, hash)
+            statement = amrenderer.render(amgroup, name)
 
             self.header.append(statement)
 
-            aperdef = ADParamStmt.macro(dcode, hash)
+            aperdef = ADParamStmt.macro(dcode, name)
             self.header.append(aperdef)
 
             # Store the dcode and the original so we can check if it really is the same
-- 
2.43.0


From ff40c5836abd5a4550b89c78744845e9efc3a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 41/81] fix: macros made of programmatically created shapes
 were written without the shapes by Rs274xContext

---
 gerber/render/rs274x_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c198495..ff0c22c 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -52,6 +52,7 @@ class AMGroupContext(object):
                     raise ValueError('amgroup')
 
             statement = AMParamStmt('AM', name, self._statements_to_string())
+            statement.build()
             return statement
 
     def _statements_to_string(self):
-- 
2.43.0


From 33c028b7f7102b327046d815fe7d5be445499f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 42/81] fix: apertures built from one macro with different
 modifiers were all exported with the last ones

---
 gerber/gerber_statements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 48b7722..0c85479 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -20,6 +20,7 @@ Gerber (RS-274X) Statements
 **Gerber RS-274X file statement classes**
 
 """
+from copy import deepcopy
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
                     inch, metric)
 
@@ -457,7 +458,8 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        # The next aperture built from this macro must not change this one
+        return AMGroup(self.primitives, stmt=deepcopy(self), units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
-- 
2.43.0


From bf6a66136e07ec140558f9d9e007c65f22441069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 43/81] fix: clear shapes were exported as dark ones in
 aperture macros

---
 gerber/am_statements.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 85576c5..71107fc 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -201,7 +201,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, 'off' if primitive.level_polarity == 'clear' else 'on', primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position):
         validate_coordinates(position)
@@ -273,7 +273,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, 'off' if primitive.level_polarity == 'clear' else 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -402,7 +402,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, 'off' if primitive.level_polarity == 'clear' else 'on', start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -516,7 +516,7 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        return cls(5, 'off' if primitive.level_polarity == 'clear' else 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -902,7 +902,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         height = primitive.height
         center = primitive.position
         rotation = primitive.rotation
-        return cls(21, 'on', width, height, center, rotation)
+        return cls(21, 'off' if primitive.level_polarity == 'clear' else 'on', width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
-- 
2.43.0


From 9994437973e2d62c9c6d9e99b435d48eb4feec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 44/81] fix: mode statements made from units were not
 recognised as such by the interpreter

---
 gerber/gerber_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 0c85479..d186e2e 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -177,7 +177,7 @@ class MOParamStmt(ParamStmt):
 
     @classmethod
     def from_units(cls, units):
-        return cls(None, units)
+        return cls('MO', units)
 
     @classmethod
     def from_dict(cls, stmt_dict):
-- 
2.43.0


From 873f16b59f6794843856200cac64a91b09b8e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 45/81] fix: slots routed in linear mode were not counted as
 hits of their tool

---
 gerber/excellon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..7832222 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -733,6 +733,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
-- 
2.43.0


From a8e9d5b256f9d58deb47c3da52e7b25fb61e6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 46/81] fix: G85 slots with incremental or partial coordinates
 were drilled at wrong places

---
 gerber/excellon.py            | 33 +++++++++++++++++----------------
 gerber/excellon_statements.py |  9 +++++----
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 7832222..59ddac4 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -684,29 +684,30 @@ class ExcellonParser(object):
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
-                # I don't know if this is actually correct, but it makes sense
-                # that this is where the tool would end
-                x = stmt.x_end
-                y = stmt.y_end
-
                 self.statements.append(stmt)
 
-                if self.notation == 'absolute':
-                    if x is not None:
-                        self.pos[0] = x
-                    if y is not None:
-                        self.pos[1] = y
-                else:
-                    if x is not None:
-                        self.pos[0] += x
-                    if y is not None:
-                        self.pos[1] += y
+                # I don't know if this is actually correct, but it makes sense
+                # that the end is where the tool would end
+                points = []
+                for x, y in ((stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end)):
+                    if self.notation == 'absolute':
+                        if x is not None:
+                            self.pos[0] = x
+                        if y is not None:
+                            self.pos[1] = y
+                    else:
+                        if x is not None:
+                            self.pos[0] += x
+                        if y is not None:
+                            self.pos[1] += y
+                    points.append(tuple(self.pos))
+                start, end = points
 
                 if self.state == 'DRILL' or self.state == 'HEADER':
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index cedfd27..0ec5b67 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -865,10 +865,11 @@ class SlotStmt(ExcellonStatement):
         (x_end_coord, y_end_coord) = SlotStmt.parse_sub_coords(sub_coords[1], settings)
 
         # Some files seem to specify only one of the coordinates
-        if x_end_coord == None:
-            x_end_coord = x_start_coord
-        if y_end_coord == None:
-            y_end_coord = y_start_coord
+        if settings.notation == 'absolute':
+            if x_end_coord == None:
+                x_end_coord = x_start_coord
+            if y_end_coord == None:
+                y_end_coord = y_start_coord
 
         c = cls(x_start_coord, y_start_coord, x_end_coord, y_end_coord, **kwargs)
         c.units = settings.units
-- 
2.43.0


From 3d6ad8a15c329021d03aba0cfae4e4b9180f1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 47/81] fix: tool tables in comments could not be read with
 Python 3

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 59ddac4..45bcee3 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -474,7 +474,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From beb063d5be9aef0b2bcdf8ecb9e4e3782ffc3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 48/81] fix: the position at the end of an Excellon program
 lost its sign and its format

---
 gerber/excellon_statements.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 0ec5b67..1ae11d4 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -605,8 +605,8 @@ class EndOfProgramStmt(ExcellonStatement):
 
     @classmethod
     def from_excellon(cls, line, settings, **kwargs):
-        match = re.compile(r'M30X?(?P<x>\d*\.?\d*)?Y?'
-                           '(?P<y>\d*\.?\d*)?').match(line)
+        match = re.compile(r'M30X?(?P<x>[+\-]?\d*\.?\d*)?Y?'
+                           r'(?P<y>[+\-]?\d*\.?\d*)?').match(line)
         stmt = match.groupdict()
         x = (parse_gerber_value(stmt['x'], settings.format,
                                 settings.zero_suppression)
@@ -625,10 +625,13 @@ class EndOfProgramStmt(ExcellonStatement):
 
     def to_excellon(self, settings=None):
         stmt = 'M30'
+        fmt = {} if settings is None else {
+            'format': settings.format,
+            'zero_suppression': settings.zero_suppression}
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += 'X%s' % write_gerber_value(self.x, **fmt)
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += 'Y%s' % write_gerber_value(self.y, **fmt)
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 98695c0e842238da93f1b4a3a48a547fa3f4070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 49/81] fix: tools above 100000 rpm were written with a speed
 that is read back as another one

---
 gerber/excellon_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 1ae11d4..dcbbcf3 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -228,7 +228,7 @@ class ExcellonTool(ExcellonStatement):
             if self.rpm < 100000.:
                 stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
             else:
-                stmt += 'S%g' % (self.rpm / 1000.)
+                stmt += 'S%s' % decimal_string(self.rpm / 1000., fmt[1])
         if self.diameter is not None:
             stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
         if self.depth_offset is not None:
-- 
2.43.0


From cee9583d0ff4e35d85401de1cf59634d84be8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 50/81] fix: the unit statement of Excellon files was written
 without the format it states

---
 gerber/excellon_statements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index dcbbcf3..6d71b00 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -690,6 +690,8 @@ class UnitStmt(ExcellonStatement):
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format in ((4, 2), (3, 3), (2, 4)):
+            stmt += ',%s.%s' % tuple('0' * digits for digits in self.format)
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From 945e9566582728e1c209453ebedc3d59ac1a4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 51/81] fix: linear routing read from Excellon files was
 written back as a rapid move and could not be read

---
 gerber/excellon.py            | 4 +---
 gerber/excellon_statements.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 45bcee3..8cc7071 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -529,7 +529,6 @@ class ExcellonParser(object):
             self.state = 'ROUT'
 
             stmt = CoordinateStmt.from_excellon(line[3:], self._settings())
-            stmt.mode = self.state
 
             x = stmt.x
             y = stmt.y
@@ -552,11 +551,10 @@ class ExcellonParser(object):
                 self._previous_line = line
                 return
 
-            self.statements.append(RouteModeStmt())
+            self.statements.append(LinearModeStmt())
             self.state = 'LINEAR'
 
             stmt = CoordinateStmt.from_excellon(line[3:], self._settings())
-            stmt.mode = self.state
 
             # The start position is where we were before the rout command
             start = (self.pos[0], self.pos[1])
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 6d71b00..98faaee 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -806,7 +806,7 @@ class RouteModeStmt(ExcellonStatement):
         return 'G00'
 
 
-class LinearModeStmt(ExcellonStatement):
+class LinearModeStmt(RouteModeStmt):
 
     def __init__(self, **kwargs):
         super(LinearModeStmt, self).__init__(**kwargs)
-- 
2.43.0


From 50e28e9dbecb1a02fb900d18ca5c0c69ffab7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 52/81] fix: tools defined in comments before the units had the
 wrong size

---
 gerber/excellon.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 8cc7071..fabbc98 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -762,6 +762,8 @@ class ExcellonParser(object):
         if existing and existing.plated == None:
             existing.plated = tool.plated
 
+        if tool.settings is None:
+            tool.settings = self._settings()
         self.comment_tools[tool.number] = tool
 
     def _merge_properties(self, tool):
@@ -783,6 +785,11 @@ class ExcellonParser(object):
         if not tool:
             tool = self.comment_tools.get(toolid)
             if tool:
+                # The units may have been set after the comment
+                if tool.settings is not None and self.units == 'metric':
+                    tool.to_metric()
+                elif tool.settings is not None:
+                    tool.to_inch()
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From 00b034e1215213656a71249fc29728f8d5d78665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 53/81] fix: the drill report lost its units, and failed for
 slots and for unused tools

---
 gerber/excellon.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index fabbc98..9f02d6f 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -244,16 +244,16 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += '  Data Mode         %s\n' % (
+            'Absolute' if self.settings.notation == 'absolute' else 'Incremental')
+        rprt += '  Units             %s\n' % (
+            'Inches' if self.settings.units == 'inch' else 'Millimeters')
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
         for tool in iter(self.tools.values()):
             rprt += toolfmt.format(tool.number, tool.diameter,
-                                   tool.hit_count, self.path_length(tool.number))
+                                   tool.hit_count, self.path_length(tool.number) or 0.0)
         if filename is not None:
             with open(filename, 'w') as f:
                 f.write(rprt)
@@ -329,9 +329,12 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            points = ((hit.position,) if isinstance(hit, DrillHit)
+                      else (hit.start, hit.end))
+            for point in points:
+                lengths[num] = lengths[
+                    num] + math.hypot(*tuple(map(operator.sub, positions[num], point)))
+                positions[num] = point
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From ee1fa922dcb7e614af77cf747d669bdbc1e5ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 54/81] fix: drill files with slots, undefined tools or
 incremental coordinates were not written correctly

---
 gerber/excellon.py | 73 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 7 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 9f02d6f..25f910f 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -264,21 +264,80 @@ class ExcellonFile(CamFile):
         with open(filename, 'w') as f:
 
             # Copy the header verbatim
-            for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
-                    f.write(statement.to_excellon(self.settings) + '\n')
-                else:
-                    break
+            for statement in self._header():
+                f.write(statement.to_excellon(self.settings) + '\n')
 
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
                 for hit in self.hits:
                     if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
+                        f.write(''.join([
+                            statement.to_excellon(self.settings) + '\n'
+                            for statement in self._hit_statements(hit)]))
             f.write(EndOfProgramStmt().to_excellon() + '\n')
 
+    @staticmethod
+    def _hit_statements(hit):
+        """ Statements that make a hit, in absolute coordinates and from drill mode
+        """
+        if isinstance(hit, DrillHit):
+            return [CoordinateStmt(*hit.position)]
+        if hit.slot_type == DrillSlot.TYPE_G85:
+            return [SlotStmt.from_points(hit.start, hit.end)]
+        return [CoordinateStmt.from_point(hit.start, mode='ROUT'),
+                ZAxisRoutPositionStmt(),
+                CoordinateStmt.from_point(hit.end, mode='LINEAR'),
+                RetractWithClampingStmt(),
+                DrillModeStmt()]
+
+    def _header(self):
+        """ Statements before the first hit or tool change. All tools are defined
+        in them, the header is closed and coordinates are absolute after them.
+        """
+        body = (ToolSelectionStmt, NextToolSelectionStmt, CoordinateStmt, SlotStmt,
+                RepeatHoleStmt, RouteModeStmt, DrillModeStmt,
+                ZAxisRoutPositionStmt, RetractWithClampingStmt,
+                RetractWithoutClampingStmt, EndOfProgramStmt)
+        header = []
+        defined = set()
+        state = 'INIT'
+        end = None
+        incremental = self.settings.notation != 'absolute'
+        for statement in self.statements:
+            if isinstance(statement, body):
+                break
+            if isinstance(statement, HeaderBeginStmt):
+                state = 'HEADER'
+            elif isinstance(statement, CommentStmt):
+                if 'HEADER:' in statement.comment or ' Holesize ' in statement.comment:
+                    state = 'HEADER'
+            elif isinstance(statement, RewindStopStmt) and state == 'INIT':
+                state = 'HEADER'
+            elif isinstance(statement, (RewindStopStmt, HeaderEndStmt)) and state == 'HEADER':
+                state = 'DRILL'
+                end = len(header)
+            elif isinstance(statement, IncrementalModeStmt) and statement.mode == 'on':
+                incremental = True
+            elif isinstance(statement, ExcellonTool):
+                if state != 'HEADER':
+                    # Made by the parser for a tool that the file does not define
+                    continue
+                defined.add(statement.number)
+            header.append(statement)
+
+        # Tools that were not defined in the header
+        missing = [tool for tool in self.tools.values() if tool.number not in defined]
+        if state == 'HEADER' or (end is None and missing):
+            if state != 'HEADER':
+                header.insert(0, HeaderBeginStmt())
+            header.extend(missing + [RewindStopStmt()])
+        elif missing:
+            header[end:end] = missing
+        if incremental:
+            header.append(AbsoluteModeStmt())
+        return header
+
     def to_inch(self):
         """
         Convert units to inches
-- 
2.43.0


From 6bc51e00a8a4eeda9f6d0cb64a17a5e7ac8cebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 55/81] fix: drill files could not be rendered to Excellon, and
 lost repeated holes

---
 gerber/excellon.py                |  2 ++
 gerber/render/excellon_backend.py | 15 +++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 25f910f..b1edb24 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -214,9 +214,11 @@ class ExcellonFile(CamFile):
             if isinstance(hit, DrillHit):
                 primitives.append(Drill(hit.position, hit.tool.diameter,
                                         units=self.settings.units))
+                primitives[-1].hit = hit
             elif isinstance(hit, DrillSlot):
                 primitives.append(Slot(hit.start, hit.end, hit.tool.diameter,
                                        units=self.settings.units))
+                primitives[-1].hit = hit
             else:
                 raise ValueError('Unknown hit type')
         return primitives
diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..4124ad4 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -93,6 +93,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
+        if tuple(point) == tuple(self._pos):
+            # A coordinate statement needs at least one coordinate
+            return point
         return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
 
     def _render_drill(self, drill, color):
@@ -101,11 +104,11 @@ class ExcellonContext(GerberContext):
             self._start_drill_mode()
 
         tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if self.cur_tool is None or tool.number != self.cur_tool.number:
             self.body.append(ToolSelectionStmt(tool.number))
             self.cur_tool = tool
 
@@ -138,11 +141,11 @@ class ExcellonContext(GerberContext):
 
         # Set the tool first, before we might go into drill mode
         tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if self.cur_tool is None or tool.number != self.cur_tool.number:
             self.body.append(ToolSelectionStmt(tool.number))
             self.cur_tool = tool
 
-- 
2.43.0


From dd9ba6213684d207f74f8cfcc39b4d0cb3b135ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 56/81] fix: read the last column of IPC-D-356 fields at the
 end of a line

---
 gerber/ipc356.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..47e6f93 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -291,22 +291,22 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
+        end = 17
         record['net_name'] = line[3:end].strip()
 
         if len(line) >= 27 and line[26] != '-':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = 26 + offset
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -314,37 +314,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -356,7 +356,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = 80 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From 1de5410d7abeaeee6da8208bcd076ffb9b49425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 57/81] fix: negative coordinates in IPC-D-356 records without
 a pin are not part of the name

---
 gerber/ipc356.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 47e6f93..aed905e 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -295,7 +295,9 @@ class IPC356_TestRecord(object):
         record['net_name'] = line[3:end].strip()
 
         if len(line) >= 27 and line[26] != '-':
-            offset = line[26:].find('-')
+            # A name of more than 6 characters. Blanks end it, a minus sign may
+            # follow in the coordinates
+            offset = line[26:].split(' ')[0].find('-')
             offset = 0 if offset == -1 else offset
         end = 26 + offset
         record['id'] = line[20:end].strip()
-- 
2.43.0


From 0e9dd5a2c4c62f732c84e2da1c3198c6d3449dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 58/81] fix: IPC-D-356 rotations in radians

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index aed905e..bf42f2c 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -350,7 +350,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(float(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From d3c570c5d5372e58a5adb7f0292dd70ff1b9b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 59/81] fix: signed coordinates in IPC-D-356 outlines and
 conductors

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index bf42f2c..f023d5e 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -25,7 +25,7 @@ from .primitives import TestRecord
 _NNAME = re.compile(r'^NNAME\d+$')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[+\-]?[\d\s]*)?Y?(?P<y>[+\-]?[\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From 9b1041b1f2ea2c6028fe6c733936bf177cd6bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 60/81] fix: collect all adjacent nets of an IPC-D-356 net

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index f023d5e..c3c8a79 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From fb833b5a867fec56a487997132333f7134f79222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 61/81] fix: net name variables in IPC-D-356 conductor and
 adjacency records

---
 gerber/ipc356.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index c3c8a79..7ecf519 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -183,6 +183,11 @@ class IPCNetlistParser(object):
 
         return IPCNetlist(self.statements, self.settings, filename=filename)
 
+    def _net_name(self, net):
+        """ Long name of a net that is given by a net name variable
+        """
+        return self.nnames[net] if _NNAME.match(net) and net in self.nnames else net
+
     def _parse_line(self, line):
         if not len(line):
             return
@@ -216,20 +221,22 @@ class IPCNetlistParser(object):
             record = IPC356_TestRecord.from_line(line, self.settings)
 
             # Substitute net name variables
-            net = record.net_name
-            if (_NNAME.match(net) and net in self.nnames.keys()):
-                record.net_name = self.nnames[record.net_name]
+            record.net_name = self._net_name(record.net_name)
             self.statements.append(record)
 
         elif line[0:3] == '378':
             # Conductor
-            self.statements.append(
-                IPC356_Conductor.from_line(
-                    line, self.settings))
+            record = IPC356_Conductor.from_line(line, self.settings)
+            record.net_name = self._net_name(record.net_name)
+            self.statements.append(record)
 
         elif line[0:3] == '379':
             # Net Adjacency
-            self.statements.append(IPC356_Adjacency.from_line(line))
+            record = IPC356_Adjacency.from_line(line)
+            record.net = self._net_name(record.net)
+            record.adjacent_nets = [self._net_name(net)
+                                    for net in record.adjacent_nets]
+            self.statements.append(record)
 
         elif line[0:3] == '389':
             # Outline
-- 
2.43.0


From 8117097f5add346d71ae28b81749d4fb8d5027c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 62/81] fix: IPC-D-356 UNITS SI

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 7ecf519..6c9ebbd 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -202,7 +202,7 @@ class IPCNetlistParser(object):
                 if p.value in ('CUST', 'CUST 0'):
                     self.units = 'inch'
                     self.angle_units = 'degrees'
-                elif p.value == 'CUST 1':
+                elif p.value in ('CUST 1', 'SI'):
                     self.units = 'metric'
                     self.angle_units = 'degrees'
                 elif p.value == 'CUST 2':
-- 
2.43.0


From e4dae33903d4d131b4895c5b2a2b23f8999adb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 63/81] fix: number internal layers by their file names, not by
 their directories

---
 gerber/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..bf1e7cc 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -255,7 +255,7 @@ class InternalLayer(PCBLayer):
     def from_cam(cls, camfile):
         filename = camfile.filename
         try:
-            order = int(re.search(r'\d+', filename).group())
+            order = int(re.search(r'\d+', os.path.basename(filename)).group())
         except AttributeError:
             order = 0
         return cls(filename, camfile, order)
-- 
2.43.0


From cc05e95b9c965725ad4bb1313e965f386ed1310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 64/81] fix: boards without layers on one side

---
 gerber/pcb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..cc8d7ad 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -81,7 +81,7 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def bottom_layers(self):
@@ -89,7 +89,7 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From b31a5562f8616d3188d8ea12f92fceaebbf88695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 65/81] fix: detect the format of drill files without tool
 sizes

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b1edb24..5822c34 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -937,6 +937,10 @@ def detect_excellon_format(data=None, filename=None):
             except:
                 pass
 
+    # No option can be scored, e.g. in a file without tool sizes
+    if not results:
+        return {'format': format_options[0], 'zeros': zeros_options[0]}
+
     # See if any of the dimensions are left with only a single option
     formats = set(key[0] for key in iter(results.keys()))
     zeros = set(key[1] for key in iter(results.keys()))
-- 
2.43.0


From 695c6ec6270716603c3ab377ae83dbac73300d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 66/81] fix: images cut off the last row of pixels of shapes

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..7dd2ab8 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -594,7 +594,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From 401cfd3f665936bf682fe124fcb91d6a92f48035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 67/81] fix: holes of clear shapes and in inverted layers

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 7dd2ab8..8eaa0ed 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -319,10 +319,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -358,19 +355,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -415,10 +406,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -457,10 +445,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -468,10 +453,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From b36b595ebcaaf0b5bbedc6de35afc701fc644df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 68/81] fix: full circles drawn clockwise and in regions

---
 gerber/render/cairo_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8eaa0ed..3dc2614 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -236,7 +236,7 @@ class GerberCairoContext(GerberContext):
         angle2 = (arc.end_angle + two_pi) % two_pi
         if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
             # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+            angle2 += -0.000000001 if arc.direction == 'counterclockwise' else 0.000000001
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -290,6 +290,9 @@ class GerberCairoContext(GerberContext):
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
                         angle2 = prim.end_angle
+                        if angle1 == angle2 and prim.quadrant_mode != 'single-quadrant':
+                            # Full circle, see _render_arc
+                            angle2 += -0.000000001 if prim.direction == 'counterclockwise' else 0.000000001
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
                                          angle1, angle2)
-- 
2.43.0


From d69bdce4e76b2dd511ac41e7b5c5f4ef5623813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 69/81] fix: clear shapes in inverted layers

---
 gerber/render/cairo_backend.py | 50 ++++++++++++----------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 3dc2614..cc24593 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -199,13 +199,18 @@ class GerberCairoContext(GerberContext):
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
 
+    def _operator(self, primitive):
+        """ Operator that draws the primitive with its polarity. Layers that are
+        inverted start out painted, so dark primitives clear them.
+        """
+        return (cairo.OPERATOR_OVER
+                if (primitive.level_polarity == 'dark') != bool(self.invert)
+                else cairo.OPERATOR_CLEAR)
+
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -242,10 +247,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -274,9 +276,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -304,10 +304,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -345,10 +342,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -378,10 +372,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -428,10 +419,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -484,9 +472,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -507,9 +493,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
-- 
2.43.0


From f0ae7d2ae47b644318aa713f41c45c45d6e08c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 70/81] fix: images of boards show the area of all layers

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index cc24593..e851818 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -127,7 +127,7 @@ class GerberCairoContext(GerberContext):
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
-                              verbose=verbose)
+                              verbose=verbose, bounds=(x_range, y_range))
         self.dump(filename, verbose)
 
     def dump(self, filename=None, verbose=False):
-- 
2.43.0


From a5b7baa4cd919be1cd2ddb7ad0f2d8185b455d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 71/81] fix: turned rectangles in images

---
 gerber/render/cairo_backend.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e851818..6a62eac 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -338,15 +338,14 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_rectangle(self, rectangle, color):
-        lower_left = self.scale_point(rectangle.lower_left)
-        width, height = tuple([abs(coord) for coord in
-                               self.scale_point((rectangle.width,
-                                                 rectangle.height))])
+        vertices = [self.scale_point(vertex) for vertex in rectangle.vertices]
         self.ctx.set_operator(self._operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
-                mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
+                mask.ctx.move_to(*vertices[-1])
+                for vertex in vertices:
+                    mask.ctx.line_to(*vertex)
                 mask.ctx.fill()
 
                 center = self.scale_point(rectangle.position)
-- 
2.43.0


From 174f3824dcf593ff6f877905636488347ae315d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 72/81] fix: places of test points in images

---
 gerber/render/cairo_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 6a62eac..67fbdcc 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -486,14 +486,14 @@ class GerberCairoContext(GerberContext):
             self.render(primitive)
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        x, y = self.scale_point([coord + 0.015 for coord in position])
+        self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From fc98d1dc17f9253a65f363588c61836c448bb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 73/81] fix: themes with less colors than there are internal
 layers

---
 gerber/render/theme.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..f1586cf 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -16,6 +16,8 @@
 # limitations under the License.
 
 
+import itertools
+
 from .render import RenderSettings
 
 COLORS = {
@@ -74,8 +76,8 @@ class Theme(object):
         return next(self._internal_gen)
 
     def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
+        # Start over when there are more internal layers than settings
+        return itertools.cycle(self._internal)
 
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
-- 
2.43.0


From 251332ec05fbe4aa8a5ca0dbbf42105dc277de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 74/81] fix: bottom solder mask of the Blue theme is seen from
 below

---
 gerber/render/theme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index f1586cf..876e6a5 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -97,7 +97,7 @@ THEMES = {
 
     'Blue': Theme(name='Blue',
                   topmask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True),
-                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True)),
+                  bottommask=RenderSettings(COLORS['blue soldermask'], alpha=0.8, invert=True, mirror=True)),
 
     'Transparent Copper': Theme(name='Transparent',
                                 background=RenderSettings((0.9, 0.9, 0.9)),
-- 
2.43.0


From 8c706bfb701ac02202f2a154277487be9a03dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:47 +0000
Subject: [PATCH 75/81] fix: parameter files with incremental coordinates could
 not be read

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From 12e0f7dcd42dff375b59c878fa6a797c01e68312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 76/81] fix: plating in the rows of tool tables was not
 recognised

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..f9837b7 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -94,9 +94,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From ffbf3e202e5999c2b5013202a641f2a27edc4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 77/81] fix: sizes of the caller's tool table were taken for
 any units, and using the table changed it

---
 gerber/excellon.py      | 13 +++++++++++--
 gerber/excellon_tool.py |  8 +++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5822c34..4b96937 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -23,6 +23,7 @@ Excellon File module
 This module provides Excellon file classes and parsing utilities
 """
 
+import copy
 import math
 import operator
 
@@ -858,8 +859,16 @@ class ExcellonParser(object):
                 self.tools[toolid] = tool
 
         if not tool:
-            tool = self.ext_tools.get(toolid)
-            if tool:
+            ext_tool = self.ext_tools.get(toolid)
+            if ext_tool:
+                # The table is the caller's, and may be used for other files
+                tool = copy.copy(ext_tool)
+                tool.settings = copy.copy(ext_tool.settings)
+                tool.hit_count = 0
+                if tool.settings is not None and self.units == 'metric':
+                    tool.to_metric()
+                elif tool.settings is not None:
+                    tool.to_inch()
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index f9837b7..ba12a95 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -23,12 +23,14 @@ Excellon Tool Definition File module
 This module provides Excellon file classes and parsing utilities
 """
 
+import copy
 import re
 try:
     from cStringIO import StringIO
 except(ImportError):
     from io import StringIO
 
+from .cam import FileSettings
 from .excellon_statements import ExcellonTool
 
 def loads(data, settings=None):
@@ -69,7 +71,7 @@ class ExcellonToolDefinitionParser(object):
 
     def __init__(self, settings=None):
         self.tools = {}
-        self.settings = settings
+        self.settings = settings if settings is not None else FileSettings()
 
     def parse_raw(self, data):
         for line in StringIO(data):
@@ -103,8 +105,8 @@ class ExcellonToolDefinitionParser(object):
                 else:
                     plated = ExcellonTool.PLATED_UNKNOWN
 
-                tool = ExcellonTool(None, number=toolid, diameter=size,
-                                    plated=plated)
+                tool = ExcellonTool(copy.copy(self.settings), number=toolid,
+                                    diameter=size, plated=plated)
 
                 self.tools[tool.number] = tool
 
-- 
2.43.0


From ad7e10664234610bafc1643656f374fb32359523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 78/81] fix: Gerber files with apertures could not be copied,
 so no operation worked

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 37c45ce..735cb33 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -274,7 +274,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From 8b0fddf7efbd61f290bfd0143f41afb993e7e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 79/81] fix: drill files had no bounds

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 4b96937..955f827 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -236,6 +236,10 @@ class ExcellonFile(CamFile):
             ymax = max(bbox[1][1], ymax)
         return ((xmin, xmax), (ymin, ymax))
 
+    @property
+    def bounds(self):
+        return self.bounding_box if self.hits else None
+
     def report(self, filename=None):
         """ Print or save drill report
         """
-- 
2.43.0


From 4b36a880d79a211ccc735c4c1997c10232de941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:32 +0000
Subject: [PATCH 80/81] fix: files of different units in one image were drawn
 at different scales

---
 gerber/render/cairo_backend.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 67fbdcc..a59f52f 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -29,7 +29,7 @@ import os
 from .render import GerberContext, RenderSettings
 from .theme import THEMES
 from ..primitives import *
-from ..utils import rotate_point
+from ..utils import inch, rotate_point
 
 from io import BytesIO
 
@@ -90,7 +90,7 @@ class GerberCairoContext(GerberContext):
             if bounds is not None:
                 self.set_bounds(bounds)
             else:
-                self.set_bounds(layer.bounds)
+                self.set_bounds(self._bounds_in_inch(layer))
             self.paint_background(bgsettings)
         if verbose:
             print('[Render]: Rendering {} Layer.'.format(layer.layer_class))
@@ -107,7 +107,7 @@ class GerberCairoContext(GerberContext):
         x_range = [10000, -10000]
         y_range = [10000, -10000]
         for layer in layers:
-            bounds = layer.bounds
+            bounds = self._bounds_in_inch(layer)
             if bounds is not None:
                 layer_x, layer_y = bounds
                 x_range[0] = min(x_range[0], layer_x[0])
@@ -190,11 +190,28 @@ class GerberCairoContext(GerberContext):
 
         return Mask()
 
+    def _bounds_in_inch(self, layer):
+        """ Bounds of the layer. The files of a board may have different units
+        """
+        if layer.bounds is None or getattr(layer.cam_source, 'units', None) != 'metric':
+            return layer.bounds
+        return tuple(tuple(inch(value) for value in limits) for limits in layer.bounds)
+
+    def _primitives_in_inch(self, layer):
+        """ Primitives of the layer, or copies of them if they are metric
+        """
+        if not any(prim.units == 'metric' for prim in layer.primitives):
+            return layer.primitives
+        primitives = copy.deepcopy(layer.primitives)
+        for prim in primitives:
+            prim.to_inch()
+        return primitives
+
     def _render_layer(self, layer, settings):
         self.invert = settings.invert
         # Get a new clean layer to render on
         self.new_render_layer(mirror=settings.mirror)
-        for prim in layer.primitives:
+        for prim in self._primitives_in_inch(layer):
             self.render(prim)
         # Add layer to image
         self.flatten(settings.color, settings.alpha)
-- 
2.43.0


From 8e53d1e1c3254a23ca87de4a3213c2d715ac4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:29 +0000
Subject: [PATCH 81/81] fix: converting a tool changed the units of the tools
 that share its settings

---
 gerber/excellon_statements.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 98faaee..bfc8abc 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -21,6 +21,7 @@ Excellon Statements
 
 """
 
+import copy
 import re
 import uuid
 import itertools
@@ -237,6 +238,8 @@ class ExcellonTool(ExcellonStatement):
 
     def to_inch(self):
         if self.settings.units != 'inch':
+            # Other tools can share the settings
+            self.settings = copy.copy(self.settings)
             self.settings.units = 'inch'
             if self.diameter is not None:
                 self.diameter = inch(self.diameter)
@@ -245,6 +248,8 @@ class ExcellonTool(ExcellonStatement):
 
     def to_metric(self):
         if self.settings.units != 'metric':
+            # Other tools can share the settings
+            self.settings = copy.copy(self.settings)
             self.settings.units = 'metric'
             if self.diameter is not None:
                 self.diameter = metric(self.diameter)
-- 
2.43.0

