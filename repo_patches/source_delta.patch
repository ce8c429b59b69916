From add32e17a502d138e9ba08b8a40efc3a32052620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 001/117] fix: write coordinate values correctly in formats
 without decimals

---
 gerber/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index 3d39df9..94f09b8 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -145,7 +145,9 @@ def write_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
         value = -1.0 * value
 
     # Format string for padding out in both directions
-    fmtstring = '%%0%d.0%df' % (MAX_DIGITS + 1, decimal_digits)
+    # (there is only a decimal point to leave room for if there are decimals)
+    width = MAX_DIGITS + 1 if decimal_digits else MAX_DIGITS
+    fmtstring = '%%0%d.0%df' % (width, decimal_digits)
     digits = [val for val in fmtstring % value if val != '.']
 
     # If all the digits are 0, return '0'.
-- 
2.43.0


From 9ad9252b928e0b5ddb6e0711a884a9dab30f62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 002/117] fix: keep single-segment (full circle) contours
 closed by a D02 in a region

---
 gerber/rs274x.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index afdf45f..d05098a 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -698,7 +698,8 @@ class GerberParser(object):
 
             if self.region_mode == "on":
                 # D02 in the middle of a region finishes that region and starts a new one
-                if self.current_region and len(self.current_region) > 1:
+                # (a contour may be a single segment: a full circle)
+                if self.current_region:
                     self.primitives.append(Region(self.current_region,
                                                   level_polarity=self.level_polarity,
                                                   units=self.settings.units))
-- 
2.43.0


From 00376044934fed11993930d8ffa9b575ed497323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 003/117] fix: find the centre of counterclockwise
 single-quadrant arcs that cross the zero angle

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index d05098a..b5cdc4d 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -758,7 +758,7 @@ class GerberParser(object):
 
                 # Determine sweep angle in the current arc direction
                 if self.direction == 'counterclockwise':
-                    sweep_angle = abs(theta1 - theta0)
+                    sweep_angle = (theta1 - theta0) % two_pi
                 else:
                     theta0 += two_pi
                     sweep_angle = abs(theta0 - theta1) % two_pi
-- 
2.43.0


From f4281b889d9dde9eaab7f826962944513183c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 004/117] fix: sweep angle of counterclockwise arcs across the
 zero angle and of full circles

---
 gerber/primitives.py | 3397 +++++++++++++++++++++---------------------
 1 file changed, 1700 insertions(+), 1697 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 757f117..e3c5218 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1,1697 +1,1700 @@
-#! /usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# copyright 2016 Hamilton Kibbe <ham@hamiltonkib.be>
-
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-
-#     http://www.apache.org/licenses/LICENSE-2.0
-
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-
-
-import math
-from operator import add
-from itertools import combinations
-from .utils import validate_coordinates, inch, metric, convex_hull
-from .utils import rotate_point, nearly_equal
-
-
-
-
-class Primitive(object):
-    """ Base class for all Cam file primitives
-
-    Parameters
-    ---------
-    level_polarity : string
-        Polarity of the parameter. May be 'dark' or 'clear'. Dark indicates
-        a "positive" primitive, i.e. indicating where coppper should remain,
-        and clear indicates a negative primitive, such as where copper should
-        be removed. clear primitives are often used to create cutouts in region
-        pours.
-
-    rotation : float
-        Rotation of a primitive about its origin in degrees. Positive rotation
-        is counter-clockwise as viewed from the board top.
-
-    units : string
-        Units in which primitive was defined. 'inch' or 'metric'
-
-    net_name : string
-        Name of the electrical net the primitive belongs to
-    """
-
-    def __init__(self, level_polarity='dark', rotation=0, units=None, net_name=None):
-        self.level_polarity = level_polarity
-        self.net_name = net_name
-        self._to_convert = list()
-        self._memoized = list()
-        self._units = units
-        self._rotation = rotation
-        self._cos_theta = math.cos(math.radians(rotation))
-        self._sin_theta = math.sin(math.radians(rotation))
-        self._bounding_box = None
-        self._vertices = None
-        self._segments = None
-
-    @property
-    def flashed(self):
-        '''Is this a flashed primitive'''
-        raise NotImplementedError('Is flashed must be '
-                                  'implemented in subclass')
-
-    def __eq__(self, other):
-        return self.__dict__ == other.__dict__
-
-    @property
-    def units(self):
-        return self._units
-
-    @units.setter
-    def units(self, value):
-        self._changed()
-        self._units = value
-
-    @property
-    def rotation(self):
-        return self._rotation
-
-    @rotation.setter
-    def rotation(self, value):
-        self._changed()
-        self._rotation = value
-        self._cos_theta = math.cos(math.radians(value))
-        self._sin_theta = math.sin(math.radians(value))
-
-    @property
-    def vertices(self):
-        return None
-
-    @property
-    def segments(self):
-        if self._segments is None:
-            if self.vertices is not None and len(self.vertices):
-                self._segments = [segment for segment in
-                                  combinations(self.vertices, 2)]
-        return self._segments
-
-    @property
-    def bounding_box(self):
-        """ Calculate axis-aligned bounding box
-
-        will be helpful for sweep & prune during DRC clearance checks.
-
-        Return ((min x, max x), (min y, max y))
-        """
-        raise NotImplementedError('Bounding box calculation must be '
-                                  'implemented in subclass')
-
-    @property
-    def bounding_box_no_aperture(self):
-        """ Calculate bouxing box without considering the aperture
-
-        for most objects, this is the same as the bounding_box, but is different for
-        Lines and Arcs (which are not flashed)
-
-        Return ((min x, max x), (min y, max y))
-        """
-        return self.bounding_box
-
-    def to_inch(self):
-        """ Convert primitive units to inches.
-        """
-        if self.units == 'metric':
-            self.units = 'inch'
-            for attr, value in [(attr, getattr(self, attr))
-                                for attr in self._to_convert]:
-                if hasattr(value, 'to_inch'):
-                    value.to_inch()
-                else:
-                    try:
-                        if len(value) > 1:
-                            if hasattr(value[0], 'to_inch'):
-                                for v in value:
-                                    v.to_inch()
-                            elif isinstance(value[0], tuple):
-                                setattr(self, attr,
-                                        [tuple(map(inch, point))
-                                         for point in value])
-                            else:
-                                setattr(self, attr, tuple(map(inch, value)))
-                    except:
-                        if value is not None:
-                            setattr(self, attr, inch(value))
-
-    def to_metric(self):
-        """ Convert primitive units to metric.
-        """
-        if self.units == 'inch':
-            self.units = 'metric'
-            for attr, value in [(attr, getattr(self, attr))
-                                for attr in self._to_convert]:
-                if hasattr(value, 'to_metric'):
-                    value.to_metric()
-                else:
-                    try:
-                        if len(value) > 1:
-                            if hasattr(value[0], 'to_metric'):
-                                for v in value:
-                                    v.to_metric()
-                            elif isinstance(value[0], tuple):
-                                setattr(self, attr,
-                                        [tuple(map(metric, point))
-                                         for point in value])
-                            else:
-                                setattr(self, attr, tuple(map(metric, value)))
-                    except:
-                        if value is not None:
-                            setattr(self, attr, metric(value))
-
-    def offset(self, x_offset=0, y_offset=0):
-        """ Move the primitive by the specified x and y offset amount.
-
-        values are specified in the primitive's native units
-        """
-        if hasattr(self, 'position'):
-            self._changed()
-            self.position = tuple([coord + offset for coord, offset
-                                   in zip(self.position,
-                                          (x_offset, y_offset))])
-
-    def to_statement(self):
-        pass
-
-    def _changed(self):
-        """ Clear memoized properties.
-
-        Forces a recalculation next time any memoized propery is queried.
-        This must be called from a subclass every time a parameter that affects
-        a memoized property is changed. The easiest way to do this is to call
-        _changed() from property.setter methods.
-        """
-        self._bounding_box = None
-        self._vertices = None
-        self._segments = None
-        for attr in self._memoized:
-            setattr(self, attr, None)
-
-class Line(Primitive):
-    """
-    """
-
-    def __init__(self, start, end, aperture, level_polarity=None, **kwargs):
-        super(Line, self).__init__(**kwargs)
-        self.level_polarity = level_polarity
-        self._start = start
-        self._end = end
-        self.aperture = aperture
-        self._to_convert = ['start', 'end', 'aperture']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def start(self):
-        return self._start
-
-    @start.setter
-    def start(self, value):
-        self._changed()
-        self._start = value
-
-    @property
-    def end(self):
-        return self._end
-
-    @end.setter
-    def end(self, value):
-        self._changed()
-        self._end = value
-
-    @property
-    def angle(self):
-        delta_x, delta_y = tuple(
-            [end - start for end, start in zip(self.end, self.start)])
-        angle = math.atan2(delta_y, delta_x)
-        return angle
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            if isinstance(self.aperture, Circle):
-                width_2 = self.aperture.radius
-                height_2 = width_2
-            else:
-                width_2 = self.aperture.width / 2.
-                height_2 = self.aperture.height / 2.
-            min_x = min(self.start[0], self.end[0]) - width_2
-            max_x = max(self.start[0], self.end[0]) + width_2
-            min_y = min(self.start[1], self.end[1]) - height_2
-            max_y = max(self.start[1], self.end[1]) + height_2
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    @property
-    def bounding_box_no_aperture(self):
-        '''Gets the bounding box without the aperture'''
-        min_x = min(self.start[0], self.end[0])
-        max_x = max(self.start[0], self.end[0])
-        min_y = min(self.start[1], self.end[1])
-        max_y = max(self.start[1], self.end[1])
-        return ((min_x, max_x), (min_y, max_y))
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            start = self.start
-            end = self.end
-            if isinstance(self.aperture, Rectangle):
-                width = self.aperture.width
-                height = self.aperture.height
-
-                # Find all the corners of the start and end position
-                start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
-                start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
-                start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
-                start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
-                end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
-                end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
-                end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
-                end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
-
-                # The line is defined by the convex hull of the points
-                self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
-            elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
-                          for vertex in self.aperture.vertices
-                          for point in (start, end)]
-                self._vertices = convex_hull(points)
-        return self._vertices
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        self.start = tuple([coord + offset for coord, offset
-                            in zip(self.start, (x_offset, y_offset))])
-        self.end = tuple([coord + offset for coord, offset
-                          in zip(self.end, (x_offset, y_offset))])
-
-    def equivalent(self, other, offset):
-
-        if not isinstance(other, Line):
-            return False
-
-        equiv_start = tuple(map(add, other.start, offset))
-        equiv_end = tuple(map(add, other.end, offset))
-
-
-        return nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)
-
-    def __str__(self):
-        return "<Line {} to {}>".format(self.start, self.end)
-
-    def __repr__(self):
-        return str(self)
-
-class Arc(Primitive):
-    """
-    """
-
-    def __init__(self, start, end, center, direction, aperture, quadrant_mode,
-            level_polarity=None, **kwargs):
-        super(Arc, self).__init__(**kwargs)
-        self.level_polarity = level_polarity
-        self._start = start
-        self._end = end
-        self._center = center
-        self.direction = direction
-        self.aperture = aperture
-        self._quadrant_mode = quadrant_mode
-        self._to_convert = ['start', 'end', 'center', 'aperture']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def start(self):
-        return self._start
-
-    @start.setter
-    def start(self, value):
-        self._changed()
-        self._start = value
-
-    @property
-    def end(self):
-        return self._end
-
-    @end.setter
-    def end(self, value):
-        self._changed()
-        self._end = value
-
-    @property
-    def center(self):
-        return self._center
-
-    @center.setter
-    def center(self, value):
-        self._changed()
-        self._center = value
-
-    @property
-    def quadrant_mode(self):
-        return self._quadrant_mode
-
-    @quadrant_mode.setter
-    def quadrant_mode(self, quadrant_mode):
-        self._changed()
-        self._quadrant_mode = quadrant_mode
-
-    @property
-    def radius(self):
-        dy, dx = tuple([start - center for start, center
-                        in zip(self.start, self.center)])
-        return math.sqrt(dy ** 2 + dx ** 2)
-
-    @property
-    def start_angle(self):
-        dx, dy = tuple([start - center for start, center
-                        in zip(self.start, self.center)])
-        return math.atan2(dy, dx)
-
-    @property
-    def end_angle(self):
-        dx, dy = tuple([end - center for end, center
-                        in zip(self.end, self.center)])
-        return math.atan2(dy, dx)
-
-    @property
-    def sweep_angle(self):
-        two_pi = 2 * math.pi
-        theta0 = (self.start_angle + two_pi) % two_pi
-        theta1 = (self.end_angle + two_pi) % two_pi
-        if self.direction == 'counterclockwise':
-            return abs(theta1 - theta0)
-        else:
-            theta0 += two_pi
-            return abs(theta0 - theta1) % two_pi
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            two_pi = 2 * math.pi
-            theta0 = (self.start_angle + two_pi) % two_pi
-            theta1 = (self.end_angle + two_pi) % two_pi
-            points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
-                if self.direction == 'counterclockwise':
-                    # Passes through 0 degrees
-                    if theta0 >= theta1:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta0 <= math.pi / 2.) and ((theta1 >= math.pi / 2.) or (theta1 <= theta0)))
-                        or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
-                        or ((theta1 > math.pi) and (theta1 <= theta0))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (theta0 <= math.pi * 1.5 and (theta1 >= math.pi * 1.5 or theta1 <= theta0)
-                        or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-                else:
-                    # Passes through 0 degrees
-                    if theta1 >= theta0:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta1 <= math.pi / 2.) and (theta0 >= math.pi / 2. or theta0 <= theta1))
-                        or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
-                        or ((theta0 > math.pi) and (theta0 <= theta1))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
-                        or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-            x, y = zip(*points)
-            if hasattr(self.aperture, 'radius'):
-                min_x = min(x) - self.aperture.radius
-                max_x = max(x) + self.aperture.radius
-                min_y = min(y) - self.aperture.radius
-                max_y = max(y) + self.aperture.radius
-            else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
-
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    @property
-    def bounding_box_no_aperture(self):
-        '''Gets the bounding box without considering the aperture'''
-        two_pi = 2 * math.pi
-        theta0 = (self.start_angle + two_pi) % two_pi
-        theta1 = (self.end_angle + two_pi) % two_pi
-        points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
-            if self.direction == 'counterclockwise':
-                # Passes through 0 degrees
-                if theta0 >= theta1:
-                    points.append((self.center[0] + self.radius, self.center[1]))
-                # Passes through 90 degrees
-                if (((theta0 <= math.pi / 2.) and (
-                    (theta1 >= math.pi / 2.) or (theta1 <= theta0)))
-                    or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
-                    points.append((self.center[0], self.center[1] + self.radius))
-                # Passes through 180 degrees
-                if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
-                    or ((theta1 > math.pi) and (theta1 <= theta0))):
-                    points.append((self.center[0] - self.radius, self.center[1]))
-                # Passes through 270 degrees
-                if (theta0 <= math.pi * 1.5 and (
-                        theta1 >= math.pi * 1.5 or theta1 <= theta0)
-                    or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
-                    points.append((self.center[0], self.center[1] - self.radius))
-            else:
-                # Passes through 0 degrees
-                if theta1 >= theta0:
-                    points.append((self.center[0] + self.radius, self.center[1]))
-                # Passes through 90 degrees
-                if (((theta1 <= math.pi / 2.) and (
-                        theta0 >= math.pi / 2. or theta0 <= theta1))
-                    or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
-                    points.append((self.center[0], self.center[1] + self.radius))
-                # Passes through 180 degrees
-                if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
-                    or ((theta0 > math.pi) and (theta0 <= theta1))):
-                    points.append((self.center[0] - self.radius, self.center[1]))
-                # Passes through 270 degrees
-                if (((theta1 <= math.pi * 1.5) and (
-                        theta0 >= math.pi * 1.5 or theta0 <= theta1))
-                    or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
-                    points.append((self.center[0], self.center[1] - self.radius))
-        x, y = zip(*points)
-
-        min_x = min(x)
-        max_x = max(x)
-        min_y = min(y)
-        max_y = max(y)
-        return ((min_x, max_x), (min_y, max_y))
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
-        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
-        self.center = tuple(map(add, self.center, (x_offset, y_offset)))
-
-
-class Circle(Primitive):
-    """
-    """
-
-    def __init__(self, position, diameter, hole_diameter=None,
-                 hole_width=0, hole_height=0, **kwargs):
-        super(Circle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._diameter = diameter
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'diameter', 'hole_diameter', 'hole_width', 'hole_height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def diameter(self):
-        return self._diameter
-
-    @diameter.setter
-    def diameter(self, value):
-        self._changed()
-        self._diameter = value
-
-    @property
-    def radius(self):
-        return self.diameter / 2.
-
-    @property
-    def hole_radius(self):
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-        return None
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
-
-    def equivalent(self, other, offset):
-        '''Is this the same as the other circle, ignoring the offiset?'''
-
-        if not isinstance(other, Circle):
-            return False
-
-        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
-            return False
-
-        equiv_position = tuple(map(add, other.position, offset))
-
-        return nearly_equal(self.position, equiv_position)
-
-
-class Ellipse(Primitive):
-    """
-    """
-    def __init__(self, position, width, height, **kwargs):
-        super(Ellipse, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._to_convert = ['position', 'width', 'height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - (self.axis_aligned_width / 2.0)
-            max_x = self.position[0] + (self.axis_aligned_width / 2.0)
-            min_y = self.position[1] - (self.axis_aligned_height / 2.0)
-            max_y = self.position[1] + (self.axis_aligned_height / 2.0)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    @property
-    def axis_aligned_width(self):
-        ux = (self.width / 2.) * math.cos(math.radians(self.rotation))
-        vx = (self.height / 2.) * \
-            math.cos(math.radians(self.rotation) + (math.pi / 2.))
-        return 2 * math.sqrt((ux * ux) + (vx * vx))
-
-    @property
-    def axis_aligned_height(self):
-        uy = (self.width / 2.) * math.sin(math.radians(self.rotation))
-        vy = (self.height / 2.) * \
-            math.sin(math.radians(self.rotation) + (math.pi / 2.))
-        return 2 * math.sqrt((uy * uy) + (vy * vy))
-
-
-class Rectangle(Primitive):
-    """
-    When rotated, the rotation is about the center point.
-
-    Only aperture macro generated Rectangle objects can be rotated. If you aren't in a AMGroup,
-    then you don't need to worry about rotation
-    """
-
-    def __init__(self, position, width, height, hole_diameter=0,
-                 hole_width=0, hole_height=0, **kwargs):
-        super(Rectangle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
-                            'hole_width', 'hole_height']
-        # TODO These are probably wrong when rotated
-        self._lower_left = None
-        self._upper_right = None
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def hole_radius(self):
-        """The radius of the hole. If there is no hole, returns None"""
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-        return None
-
-    @property
-    def upper_right(self):
-        return (self.position[0] + (self.axis_aligned_width / 2.),
-                self.position[1] + (self.axis_aligned_height / 2.))
-
-    @property
-    def lower_left(self):
-        return (self.position[0] - (self.axis_aligned_width / 2.),
-                self.position[1] - (self.axis_aligned_height / 2.))
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            delta_w = self.width / 2.
-            delta_h = self.height / 2.
-            ll = ((self.position[0] - delta_w), (self.position[1] - delta_h))
-            ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
-            ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
-            lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
-        return self._vertices
-
-    @property
-    def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
-
-    def equivalent(self, other, offset):
-        """Is this the same as the other rect, ignoring the offset?"""
-
-        if not isinstance(other, Rectangle):
-            return False
-
-        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
-            return False
-
-        equiv_position = tuple(map(add, other.position, offset))
-
-        return nearly_equal(self.position, equiv_position)
-
-    def __str__(self):
-        return "<Rectangle W {} H {} R {}>".format(self.width, self.height, self.rotation * 180/math.pi)
-
-    def __repr__(self):
-        return self.__str__()
-
-
-class Diamond(Primitive):
-    """
-    """
-
-    def __init__(self, position, width, height, **kwargs):
-        super(Diamond, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._to_convert = ['position', 'width', 'height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            delta_w = self.width / 2.
-            delta_h = self.height / 2.
-            top = (self.position[0], (self.position[1] + delta_h))
-            right = ((self.position[0] + delta_w), self.position[1])
-            bottom = (self.position[0], (self.position[1] - delta_h))
-            left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
-        return self._vertices
-
-    @property
-    def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
-
-
-class ChamferRectangle(Primitive):
-    """
-    """
-    def __init__(self, position, width, height, chamfer, corners=None, **kwargs):
-        super(ChamferRectangle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._chamfer = chamfer
-        self._corners = corners if corners is not None else [True] * 4
-        self._to_convert = ['position', 'width', 'height', 'chamfer']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def chamfer(self):
-        return self._chamfer
-
-    @chamfer.setter
-    def chamfer(self, value):
-        self._changed()
-        self._chamfer = value
-
-    @property
-    def corners(self):
-        return self._corners
-
-    @corners.setter
-    def corners(self, value):
-        self._changed()
-        self._corners = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            vertices = []
-            delta_w = self.width / 2.
-            delta_h = self.height / 2.
-            # order is UR, UL, LL, LR
-            rect_corners = [
-                ((self.position[0] + delta_w), (self.position[1] + delta_h)),
-                ((self.position[0] - delta_w), (self.position[1] + delta_h)),
-                ((self.position[0] - delta_w), (self.position[1] - delta_h)),
-                ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            ]
-            for idx, params in enumerate(zip(rect_corners, self.corners)):
-                corner, chamfered = params
-                x, y = corner
-                if chamfered:
-                    if idx == 0:
-                        vertices.append((x - self.chamfer, y))
-                        vertices.append((x, y - self.chamfer))
-                    elif idx == 1:
-                        vertices.append((x + self.chamfer, y))
-                        vertices.append((x, y - self.chamfer))
-                    elif idx == 2:
-                        vertices.append((x + self.chamfer, y))
-                        vertices.append((x, y + self.chamfer))
-                    elif idx == 3:
-                        vertices.append((x - self.chamfer, y))
-                        vertices.append((x, y + self.chamfer))
-                else:
-                    vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
-        return self._vertices
-
-    @property
-    def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
-
-
-class RoundRectangle(Primitive):
-    """
-    """
-
-    def __init__(self, position, width, height, radius, corners, **kwargs):
-        super(RoundRectangle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._radius = radius
-        self._corners = corners
-        self._to_convert = ['position', 'width', 'height', 'radius']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def radius(self):
-        return self._radius
-
-    @radius.setter
-    def radius(self, value):
-        self._changed()
-        self._radius = value
-
-    @property
-    def corners(self):
-        return self._corners
-
-    @corners.setter
-    def corners(self, value):
-        self._changed()
-        self._corners = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
-
-
-class Obround(Primitive):
-    """
-    """
-
-    def __init__(self, position, width, height, hole_diameter=0,
-                 hole_width=0,hole_height=0, **kwargs):
-        super(Obround, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
-                            'hole_width', 'hole_height' ]
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def hole_radius(self):
-        """The radius of the hole. If there is no hole, returns None"""
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-
-        return None
-
-    @property
-    def orientation(self):
-        return 'vertical' if self.height > self.width else 'horizontal'
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def subshapes(self):
-        if self.orientation == 'vertical':
-            circle1 = Circle((self.position[0], self.position[1] +
-                              (self.height - self.width) / 2.), self.width)
-            circle2 = Circle((self.position[0], self.position[1] -
-                              (self.height - self.width) / 2.), self.width)
-            rect = Rectangle(self.position, self.width,
-                             (self.height - self.width))
-        else:
-            circle1 = Circle((self.position[0]
-                              - (self.height - self.width) / 2.,
-                              self.position[1]), self.height)
-            circle2 = Circle((self.position[0]
-                              + (self.height - self.width) / 2.,
-                              self.position[1]), self.height)
-            rect = Rectangle(self.position, (self.width - self.height),
-                             self.height)
-        return {'circle1': circle1, 'circle2': circle2, 'rectangle': rect}
-
-    @property
-    def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
-
-
-class Polygon(Primitive):
-    """
-    Polygon flash defined by a set number of sides.
-    """
-    def __init__(self, position, sides, radius, hole_diameter=0,
-                 hole_width=0, hole_height=0, **kwargs):
-        super(Polygon, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self.sides = sides
-        self._radius = radius
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'radius', 'hole_diameter',
-                            'hole_width', 'hole_height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def diameter(self):
-        return self.radius * 2
-
-    @property
-    def hole_radius(self):
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-        return None
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def radius(self):
-        return self._radius
-
-    @radius.setter
-    def radius(self, value):
-        self._changed()
-        self._radius = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
-
-    @property
-    def vertices(self):
-
-        offset = self.rotation
-        delta_angle = 360.0 / self.sides
-
-        points = []
-        for i in range(self.sides):
-            points.append(
-                rotate_point((self.position[0] + self.radius, self.position[1]), offset + delta_angle * i, self.position))
-        return points
-
-
-    def equivalent(self, other, offset):
-        """
-        Is this the outline the same as the other, ignoring the position offset?
-        """
-
-        # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
-            return False
-
-        equiv_pos = tuple(map(add, other.position, offset))
-
-        return nearly_equal(self.position, equiv_pos)
-
-
-class AMGroup(Primitive):
-    """
-    """
-    def __init__(self, amprimitives, stmt = None, **kwargs):
-        """
-
-        stmt : The original statment that generated this, since it is really hard to re-generate from primitives
-        """
-        super(AMGroup, self).__init__(**kwargs)
-
-        self.primitives = []
-        for amprim in amprimitives:
-            prim = amprim.to_primitive(self.units)
-            if isinstance(prim, list):
-                for p in prim:
-                    self.primitives.append(p)
-            elif prim:
-                self.primitives.append(prim)
-        self._position = None
-        self._to_convert = ['_position', 'primitives']
-        self.stmt = stmt
-
-    def to_inch(self):
-        if self.units == 'metric':
-            super(AMGroup, self).to_inch()
-
-            # If we also have a stmt, convert that too
-            if self.stmt:
-                self.stmt.to_inch()
-
-
-    def to_metric(self):
-        if self.units == 'inch':
-            super(AMGroup, self).to_metric()
-
-            # If we also have a stmt, convert that too
-            if self.stmt:
-                self.stmt.to_metric()
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def bounding_box(self):
-        # TODO Make this cached like other items
-        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-        minx, maxx = zip(*xlims)
-        miny, maxy = zip(*ylims)
-        min_x = min(minx)
-        max_x = max(maxx)
-        min_y = min(miny)
-        max_y = max(maxy)
-        return ((min_x, max_x), (min_y, max_y))
-
-    @property
-    def position(self):
-        return self._position
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._position = tuple(map(add, self._position, (x_offset, y_offset)))
-
-        for primitive in self.primitives:
-            primitive.offset(x_offset, y_offset)
-
-    @position.setter
-    def position(self, new_pos):
-        '''
-        Sets the position of the AMGroup.
-        This offset all of the objects by the specified distance.
-        '''
-
-        if self._position:
-            dx = new_pos[0] - self._position[0]
-            dy = new_pos[1] - self._position[1]
-        else:
-            dx = new_pos[0]
-            dy = new_pos[1]
-
-        for primitive in self.primitives:
-            primitive.offset(dx, dy)
-
-        self._position = new_pos
-
-    def equivalent(self, other, offset):
-        '''
-        Is this the macro group the same as the other, ignoring the position offset?
-        '''
-
-        if len(self.primitives) != len(other.primitives):
-            return False
-
-        # We know they have the same number of primitives, so now check them all
-        for i in range(0, len(self.primitives)):
-            if not self.primitives[i].equivalent(other.primitives[i], offset):
-                return False
-
-        # If we didn't find any differences, then they are the same
-        return True
-
-class Outline(Primitive):
-    """
-    Outlines only exist as the rendering for a apeture macro outline.
-    They don't exist outside of AMGroup objects
-    """
-
-    def __init__(self, primitives, **kwargs):
-        super(Outline, self).__init__(**kwargs)
-        self.primitives = primitives
-        self._to_convert = ['primitives']
-
-        if self.primitives[0].start != self.primitives[-1].end:
-            raise ValueError('Outline must be closed')
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        for p in self.primitives:
-            p.offset(x_offset, y_offset)
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
-        return self._vertices
-
-    @property
-    def width(self):
-        bounding_box = self.bounding_box()
-        return bounding_box[0][1] - bounding_box[0][0]
-
-    def equivalent(self, other, offset):
-        '''
-        Is this the outline the same as the other, ignoring the position offset?
-        '''
-
-        # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or len(self.primitives) != len(other.primitives):
-            return False
-
-        for i in range(0, len(self.primitives)):
-            if not self.primitives[i].equivalent(other.primitives[i], offset):
-                return False
-
-        return True
-
-class Region(Primitive):
-    """
-    """
-
-    def __init__(self, primitives, **kwargs):
-        super(Region, self).__init__(**kwargs)
-        self.primitives = primitives
-        self._to_convert = ['primitives']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        for p in self.primitives:
-            p.offset(x_offset, y_offset)
-
-
-class RoundButterfly(Primitive):
-    """ A circle with two diagonally-opposite quadrants removed
-    """
-
-    def __init__(self, position, diameter, **kwargs):
-        super(RoundButterfly, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self.position = position
-        self.diameter = diameter
-        self._to_convert = ['position', 'diameter']
-
-        # TODO This does not reset bounding box correctly
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def radius(self):
-        return self.diameter / 2.
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-
-class SquareButterfly(Primitive):
-    """ A square with two diagonally-opposite quadrants removed
-    """
-
-    def __init__(self, position, side, **kwargs):
-        super(SquareButterfly, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self.position = position
-        self.side = side
-        self._to_convert = ['position', 'side']
-
-        # TODO This does not reset bounding box correctly
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - (self.side / 2.)
-            max_x = self.position[0] + (self.side / 2.)
-            min_y = self.position[1] - (self.side / 2.)
-            max_y = self.position[1] + (self.side / 2.)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-
-class Donut(Primitive):
-    """ A Shape with an identical concentric shape removed from its center
-    """
-
-    def __init__(self, position, shape, inner_diameter,
-                 outer_diameter, **kwargs):
-        super(Donut, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self.position = position
-        if shape not in ('round', 'square', 'hexagon', 'octagon'):
-            raise ValueError(
-                'Valid shapes are round, square, hexagon or octagon')
-        self.shape = shape
-        if inner_diameter >= outer_diameter:
-            raise ValueError(
-                'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
-        if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
-        else:
-            # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
-
-        self._to_convert = ['position', 'width',
-                            'height', 'inner_diameter', 'outer_diameter']
-
-        # TODO This does not reset bounding box correctly
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def lower_left(self):
-        return (self.position[0] - (self.width / 2.),
-                self.position[1] - (self.height / 2.))
-
-    @property
-    def upper_right(self):
-        return (self.position[0] + (self.width / 2.),
-                self.position[1] + (self.height / 2.))
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.width / 2.),
-                  self.position[1] - (self.height / 2.))
-            ur = (self.position[0] + (self.width / 2.),
-                  self.position[1] + (self.height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-
-class SquareRoundDonut(Primitive):
-    """ A Square with a circular cutout in the center
-    """
-
-    def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
-        super(SquareRoundDonut, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self.position = position
-        if inner_diameter >= outer_diameter:
-            raise ValueError(
-                'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
-        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = tuple([c - self.outer_diameter / 2. for c in self.position])
-            ur = tuple([c + self.outer_diameter / 2. for c in self.position])
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-
-class Drill(Primitive):
-    """ A drill hole
-    """
-    def __init__(self, position, diameter, **kwargs):
-        super(Drill, self).__init__('dark', **kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._diameter = diameter
-        self._to_convert = ['position', 'diameter']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def diameter(self):
-        return self._diameter
-
-    @diameter.setter
-    def diameter(self, value):
-        self._changed()
-        self._diameter = value
-
-    @property
-    def radius(self):
-        return self.diameter / 2.
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
-
-    def __str__(self):
-        return '<Drill %f %s (%f, %f)>' % (self.diameter, self.units, self.position[0], self.position[1])
-
-
-class Slot(Primitive):
-    """ A drilled slot
-    """
-    def __init__(self, start, end, diameter, **kwargs):
-        super(Slot, self).__init__('dark', **kwargs)
-        validate_coordinates(start)
-        validate_coordinates(end)
-        self.start = start
-        self.end = end
-        self.diameter = diameter
-        self._to_convert = ['start', 'end', 'diameter']
-
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            radius = self.diameter / 2.
-            min_x = min(self.start[0], self.end[0]) - radius
-            max_x = max(self.start[0], self.end[0]) + radius
-            min_y = min(self.start[1], self.end[1]) - radius
-            max_y = max(self.start[1], self.end[1]) + radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
-        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
-
-
-class TestRecord(Primitive):
-    """ Netlist Test record
-    """
-
-    def __init__(self, position, net_name, layer, **kwargs):
-        super(TestRecord, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self.position = position
-        self.net_name = net_name
-        self.layer = layer
-        self._to_convert = ['position']
+#! /usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# copyright 2016 Hamilton Kibbe <ham@hamiltonkib.be>
+
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+
+#     http://www.apache.org/licenses/LICENSE-2.0
+
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+
+import math
+from operator import add
+from itertools import combinations
+from .utils import validate_coordinates, inch, metric, convex_hull
+from .utils import rotate_point, nearly_equal
+
+
+
+
+class Primitive(object):
+    """ Base class for all Cam file primitives
+
+    Parameters
+    ---------
+    level_polarity : string
+        Polarity of the parameter. May be 'dark' or 'clear'. Dark indicates
+        a "positive" primitive, i.e. indicating where coppper should remain,
+        and clear indicates a negative primitive, such as where copper should
+        be removed. clear primitives are often used to create cutouts in region
+        pours.
+
+    rotation : float
+        Rotation of a primitive about its origin in degrees. Positive rotation
+        is counter-clockwise as viewed from the board top.
+
+    units : string
+        Units in which primitive was defined. 'inch' or 'metric'
+
+    net_name : string
+        Name of the electrical net the primitive belongs to
+    """
+
+    def __init__(self, level_polarity='dark', rotation=0, units=None, net_name=None):
+        self.level_polarity = level_polarity
+        self.net_name = net_name
+        self._to_convert = list()
+        self._memoized = list()
+        self._units = units
+        self._rotation = rotation
+        self._cos_theta = math.cos(math.radians(rotation))
+        self._sin_theta = math.sin(math.radians(rotation))
+        self._bounding_box = None
+        self._vertices = None
+        self._segments = None
+
+    @property
+    def flashed(self):
+        '''Is this a flashed primitive'''
+        raise NotImplementedError('Is flashed must be '
+                                  'implemented in subclass')
+
+    def __eq__(self, other):
+        return self.__dict__ == other.__dict__
+
+    @property
+    def units(self):
+        return self._units
+
+    @units.setter
+    def units(self, value):
+        self._changed()
+        self._units = value
+
+    @property
+    def rotation(self):
+        return self._rotation
+
+    @rotation.setter
+    def rotation(self, value):
+        self._changed()
+        self._rotation = value
+        self._cos_theta = math.cos(math.radians(value))
+        self._sin_theta = math.sin(math.radians(value))
+
+    @property
+    def vertices(self):
+        return None
+
+    @property
+    def segments(self):
+        if self._segments is None:
+            if self.vertices is not None and len(self.vertices):
+                self._segments = [segment for segment in
+                                  combinations(self.vertices, 2)]
+        return self._segments
+
+    @property
+    def bounding_box(self):
+        """ Calculate axis-aligned bounding box
+
+        will be helpful for sweep & prune during DRC clearance checks.
+
+        Return ((min x, max x), (min y, max y))
+        """
+        raise NotImplementedError('Bounding box calculation must be '
+                                  'implemented in subclass')
+
+    @property
+    def bounding_box_no_aperture(self):
+        """ Calculate bouxing box without considering the aperture
+
+        for most objects, this is the same as the bounding_box, but is different for
+        Lines and Arcs (which are not flashed)
+
+        Return ((min x, max x), (min y, max y))
+        """
+        return self.bounding_box
+
+    def to_inch(self):
+        """ Convert primitive units to inches.
+        """
+        if self.units == 'metric':
+            self.units = 'inch'
+            for attr, value in [(attr, getattr(self, attr))
+                                for attr in self._to_convert]:
+                if hasattr(value, 'to_inch'):
+                    value.to_inch()
+                else:
+                    try:
+                        if len(value) > 1:
+                            if hasattr(value[0], 'to_inch'):
+                                for v in value:
+                                    v.to_inch()
+                            elif isinstance(value[0], tuple):
+                                setattr(self, attr,
+                                        [tuple(map(inch, point))
+                                         for point in value])
+                            else:
+                                setattr(self, attr, tuple(map(inch, value)))
+                    except:
+                        if value is not None:
+                            setattr(self, attr, inch(value))
+
+    def to_metric(self):
+        """ Convert primitive units to metric.
+        """
+        if self.units == 'inch':
+            self.units = 'metric'
+            for attr, value in [(attr, getattr(self, attr))
+                                for attr in self._to_convert]:
+                if hasattr(value, 'to_metric'):
+                    value.to_metric()
+                else:
+                    try:
+                        if len(value) > 1:
+                            if hasattr(value[0], 'to_metric'):
+                                for v in value:
+                                    v.to_metric()
+                            elif isinstance(value[0], tuple):
+                                setattr(self, attr,
+                                        [tuple(map(metric, point))
+                                         for point in value])
+                            else:
+                                setattr(self, attr, tuple(map(metric, value)))
+                    except:
+                        if value is not None:
+                            setattr(self, attr, metric(value))
+
+    def offset(self, x_offset=0, y_offset=0):
+        """ Move the primitive by the specified x and y offset amount.
+
+        values are specified in the primitive's native units
+        """
+        if hasattr(self, 'position'):
+            self._changed()
+            self.position = tuple([coord + offset for coord, offset
+                                   in zip(self.position,
+                                          (x_offset, y_offset))])
+
+    def to_statement(self):
+        pass
+
+    def _changed(self):
+        """ Clear memoized properties.
+
+        Forces a recalculation next time any memoized propery is queried.
+        This must be called from a subclass every time a parameter that affects
+        a memoized property is changed. The easiest way to do this is to call
+        _changed() from property.setter methods.
+        """
+        self._bounding_box = None
+        self._vertices = None
+        self._segments = None
+        for attr in self._memoized:
+            setattr(self, attr, None)
+
+class Line(Primitive):
+    """
+    """
+
+    def __init__(self, start, end, aperture, level_polarity=None, **kwargs):
+        super(Line, self).__init__(**kwargs)
+        self.level_polarity = level_polarity
+        self._start = start
+        self._end = end
+        self.aperture = aperture
+        self._to_convert = ['start', 'end', 'aperture']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def angle(self):
+        delta_x, delta_y = tuple(
+            [end - start for end, start in zip(self.end, self.start)])
+        angle = math.atan2(delta_y, delta_x)
+        return angle
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            if isinstance(self.aperture, Circle):
+                width_2 = self.aperture.radius
+                height_2 = width_2
+            else:
+                width_2 = self.aperture.width / 2.
+                height_2 = self.aperture.height / 2.
+            min_x = min(self.start[0], self.end[0]) - width_2
+            max_x = max(self.start[0], self.end[0]) + width_2
+            min_y = min(self.start[1], self.end[1]) - height_2
+            max_y = max(self.start[1], self.end[1]) + height_2
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    @property
+    def bounding_box_no_aperture(self):
+        '''Gets the bounding box without the aperture'''
+        min_x = min(self.start[0], self.end[0])
+        max_x = max(self.start[0], self.end[0])
+        min_y = min(self.start[1], self.end[1])
+        max_y = max(self.start[1], self.end[1])
+        return ((min_x, max_x), (min_y, max_y))
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            start = self.start
+            end = self.end
+            if isinstance(self.aperture, Rectangle):
+                width = self.aperture.width
+                height = self.aperture.height
+
+                # Find all the corners of the start and end position
+                start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
+                start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
+                start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
+                start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
+                end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
+                end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
+                end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
+                end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
+
+                # The line is defined by the convex hull of the points
+                self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
+            elif isinstance(self.aperture, Polygon):
+                points = [map(add, point, vertex)
+                          for vertex in self.aperture.vertices
+                          for point in (start, end)]
+                self._vertices = convex_hull(points)
+        return self._vertices
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        self.start = tuple([coord + offset for coord, offset
+                            in zip(self.start, (x_offset, y_offset))])
+        self.end = tuple([coord + offset for coord, offset
+                          in zip(self.end, (x_offset, y_offset))])
+
+    def equivalent(self, other, offset):
+
+        if not isinstance(other, Line):
+            return False
+
+        equiv_start = tuple(map(add, other.start, offset))
+        equiv_end = tuple(map(add, other.end, offset))
+
+
+        return nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)
+
+    def __str__(self):
+        return "<Line {} to {}>".format(self.start, self.end)
+
+    def __repr__(self):
+        return str(self)
+
+class Arc(Primitive):
+    """
+    """
+
+    def __init__(self, start, end, center, direction, aperture, quadrant_mode,
+            level_polarity=None, **kwargs):
+        super(Arc, self).__init__(**kwargs)
+        self.level_polarity = level_polarity
+        self._start = start
+        self._end = end
+        self._center = center
+        self.direction = direction
+        self.aperture = aperture
+        self._quadrant_mode = quadrant_mode
+        self._to_convert = ['start', 'end', 'center', 'aperture']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def center(self):
+        return self._center
+
+    @center.setter
+    def center(self, value):
+        self._changed()
+        self._center = value
+
+    @property
+    def quadrant_mode(self):
+        return self._quadrant_mode
+
+    @quadrant_mode.setter
+    def quadrant_mode(self, quadrant_mode):
+        self._changed()
+        self._quadrant_mode = quadrant_mode
+
+    @property
+    def radius(self):
+        dy, dx = tuple([start - center for start, center
+                        in zip(self.start, self.center)])
+        return math.sqrt(dy ** 2 + dx ** 2)
+
+    @property
+    def start_angle(self):
+        dx, dy = tuple([start - center for start, center
+                        in zip(self.start, self.center)])
+        return math.atan2(dy, dx)
+
+    @property
+    def end_angle(self):
+        dx, dy = tuple([end - center for end, center
+                        in zip(self.end, self.center)])
+        return math.atan2(dy, dx)
+
+    @property
+    def sweep_angle(self):
+        two_pi = 2 * math.pi
+        theta0 = (self.start_angle + two_pi) % two_pi
+        theta1 = (self.end_angle + two_pi) % two_pi
+        # Arcs with the same start and end point are full circles
+        if self.quadrant_mode == 'multi-quadrant' and self.start == self.end:
+            return two_pi
+        if self.direction == 'counterclockwise':
+            return (theta1 - theta0) % two_pi
+        else:
+            theta0 += two_pi
+            return abs(theta0 - theta1) % two_pi
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            two_pi = 2 * math.pi
+            theta0 = (self.start_angle + two_pi) % two_pi
+            theta1 = (self.end_angle + two_pi) % two_pi
+            points = [self.start, self.end]
+            if self.quadrant_mode == 'multi-quadrant':
+                if self.direction == 'counterclockwise':
+                    # Passes through 0 degrees
+                    if theta0 >= theta1:
+                        points.append((self.center[0] + self.radius, self.center[1]))
+                    # Passes through 90 degrees
+                    if (((theta0 <= math.pi / 2.) and ((theta1 >= math.pi / 2.) or (theta1 <= theta0)))
+                        or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
+                        points.append((self.center[0], self.center[1] + self.radius))
+                    # Passes through 180 degrees
+                    if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
+                        or ((theta1 > math.pi) and (theta1 <= theta0))):
+                        points.append((self.center[0] - self.radius, self.center[1]))
+                    # Passes through 270 degrees
+                    if (theta0 <= math.pi * 1.5 and (theta1 >= math.pi * 1.5 or theta1 <= theta0)
+                        or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
+                        points.append((self.center[0], self.center[1] - self.radius))
+                else:
+                    # Passes through 0 degrees
+                    if theta1 >= theta0:
+                        points.append((self.center[0] + self.radius, self.center[1]))
+                    # Passes through 90 degrees
+                    if (((theta1 <= math.pi / 2.) and (theta0 >= math.pi / 2. or theta0 <= theta1))
+                        or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
+                        points.append((self.center[0], self.center[1] + self.radius))
+                    # Passes through 180 degrees
+                    if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
+                        or ((theta0 > math.pi) and (theta0 <= theta1))):
+                        points.append((self.center[0] - self.radius, self.center[1]))
+                    # Passes through 270 degrees
+                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
+                        or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
+                        points.append((self.center[0], self.center[1] - self.radius))
+            x, y = zip(*points)
+            if hasattr(self.aperture, 'radius'):
+                min_x = min(x) - self.aperture.radius
+                max_x = max(x) + self.aperture.radius
+                min_y = min(y) - self.aperture.radius
+                max_y = max(y) + self.aperture.radius
+            else:
+                min_x = min(x) - self.aperture.width
+                max_x = max(x) + self.aperture.width
+                min_y = min(y) - self.aperture.height
+                max_y = max(y) + self.aperture.height
+
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    @property
+    def bounding_box_no_aperture(self):
+        '''Gets the bounding box without considering the aperture'''
+        two_pi = 2 * math.pi
+        theta0 = (self.start_angle + two_pi) % two_pi
+        theta1 = (self.end_angle + two_pi) % two_pi
+        points = [self.start, self.end]
+        if self.quadrant_mode == 'multi-quadrant':
+            if self.direction == 'counterclockwise':
+                # Passes through 0 degrees
+                if theta0 >= theta1:
+                    points.append((self.center[0] + self.radius, self.center[1]))
+                # Passes through 90 degrees
+                if (((theta0 <= math.pi / 2.) and (
+                    (theta1 >= math.pi / 2.) or (theta1 <= theta0)))
+                    or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
+                    points.append((self.center[0], self.center[1] + self.radius))
+                # Passes through 180 degrees
+                if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
+                    or ((theta1 > math.pi) and (theta1 <= theta0))):
+                    points.append((self.center[0] - self.radius, self.center[1]))
+                # Passes through 270 degrees
+                if (theta0 <= math.pi * 1.5 and (
+                        theta1 >= math.pi * 1.5 or theta1 <= theta0)
+                    or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
+                    points.append((self.center[0], self.center[1] - self.radius))
+            else:
+                # Passes through 0 degrees
+                if theta1 >= theta0:
+                    points.append((self.center[0] + self.radius, self.center[1]))
+                # Passes through 90 degrees
+                if (((theta1 <= math.pi / 2.) and (
+                        theta0 >= math.pi / 2. or theta0 <= theta1))
+                    or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
+                    points.append((self.center[0], self.center[1] + self.radius))
+                # Passes through 180 degrees
+                if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
+                    or ((theta0 > math.pi) and (theta0 <= theta1))):
+                    points.append((self.center[0] - self.radius, self.center[1]))
+                # Passes through 270 degrees
+                if (((theta1 <= math.pi * 1.5) and (
+                        theta0 >= math.pi * 1.5 or theta0 <= theta1))
+                    or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
+                    points.append((self.center[0], self.center[1] - self.radius))
+        x, y = zip(*points)
+
+        min_x = min(x)
+        max_x = max(x)
+        min_y = min(y)
+        max_y = max(y)
+        return ((min_x, max_x), (min_y, max_y))
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
+        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
+        self.center = tuple(map(add, self.center, (x_offset, y_offset)))
+
+
+class Circle(Primitive):
+    """
+    """
+
+    def __init__(self, position, diameter, hole_diameter=None,
+                 hole_width=0, hole_height=0, **kwargs):
+        super(Circle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._diameter = diameter
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'diameter', 'hole_diameter', 'hole_width', 'hole_height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
+    @property
+    def radius(self):
+        return self.diameter / 2.
+
+    @property
+    def hole_radius(self):
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+        return None
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
+
+    def equivalent(self, other, offset):
+        '''Is this the same as the other circle, ignoring the offiset?'''
+
+        if not isinstance(other, Circle):
+            return False
+
+        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
+            return False
+
+        equiv_position = tuple(map(add, other.position, offset))
+
+        return nearly_equal(self.position, equiv_position)
+
+
+class Ellipse(Primitive):
+    """
+    """
+    def __init__(self, position, width, height, **kwargs):
+        super(Ellipse, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._to_convert = ['position', 'width', 'height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - (self.axis_aligned_width / 2.0)
+            max_x = self.position[0] + (self.axis_aligned_width / 2.0)
+            min_y = self.position[1] - (self.axis_aligned_height / 2.0)
+            max_y = self.position[1] + (self.axis_aligned_height / 2.0)
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    @property
+    def axis_aligned_width(self):
+        ux = (self.width / 2.) * math.cos(math.radians(self.rotation))
+        vx = (self.height / 2.) * \
+            math.cos(math.radians(self.rotation) + (math.pi / 2.))
+        return 2 * math.sqrt((ux * ux) + (vx * vx))
+
+    @property
+    def axis_aligned_height(self):
+        uy = (self.width / 2.) * math.sin(math.radians(self.rotation))
+        vy = (self.height / 2.) * \
+            math.sin(math.radians(self.rotation) + (math.pi / 2.))
+        return 2 * math.sqrt((uy * uy) + (vy * vy))
+
+
+class Rectangle(Primitive):
+    """
+    When rotated, the rotation is about the center point.
+
+    Only aperture macro generated Rectangle objects can be rotated. If you aren't in a AMGroup,
+    then you don't need to worry about rotation
+    """
+
+    def __init__(self, position, width, height, hole_diameter=0,
+                 hole_width=0, hole_height=0, **kwargs):
+        super(Rectangle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
+                            'hole_width', 'hole_height']
+        # TODO These are probably wrong when rotated
+        self._lower_left = None
+        self._upper_right = None
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def hole_radius(self):
+        """The radius of the hole. If there is no hole, returns None"""
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+        return None
+
+    @property
+    def upper_right(self):
+        return (self.position[0] + (self.axis_aligned_width / 2.),
+                self.position[1] + (self.axis_aligned_height / 2.))
+
+    @property
+    def lower_left(self):
+        return (self.position[0] - (self.axis_aligned_width / 2.),
+                self.position[1] - (self.axis_aligned_height / 2.))
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            delta_w = self.width / 2.
+            delta_h = self.height / 2.
+            ll = ((self.position[0] - delta_w), (self.position[1] - delta_h))
+            ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
+            ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
+            lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
+            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
+                               (x * self._sin_theta + y * self._cos_theta))
+                              for x, y in [ll, ul, ur, lr]]
+        return self._vertices
+
+    @property
+    def axis_aligned_width(self):
+        return (self._cos_theta * self.width + self._sin_theta * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (self._cos_theta * self.height + self._sin_theta * self.width)
+
+    def equivalent(self, other, offset):
+        """Is this the same as the other rect, ignoring the offset?"""
+
+        if not isinstance(other, Rectangle):
+            return False
+
+        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+            return False
+
+        equiv_position = tuple(map(add, other.position, offset))
+
+        return nearly_equal(self.position, equiv_position)
+
+    def __str__(self):
+        return "<Rectangle W {} H {} R {}>".format(self.width, self.height, self.rotation * 180/math.pi)
+
+    def __repr__(self):
+        return self.__str__()
+
+
+class Diamond(Primitive):
+    """
+    """
+
+    def __init__(self, position, width, height, **kwargs):
+        super(Diamond, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._to_convert = ['position', 'width', 'height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            delta_w = self.width / 2.
+            delta_h = self.height / 2.
+            top = (self.position[0], (self.position[1] + delta_h))
+            right = ((self.position[0] + delta_w), self.position[1])
+            bottom = (self.position[0], (self.position[1] - delta_h))
+            left = ((self.position[0] - delta_w), self.position[1])
+            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
+                               ((x * self._sin_theta) + (y * self._cos_theta)))
+                              for x, y in [top, right, bottom, left]]
+        return self._vertices
+
+    @property
+    def axis_aligned_width(self):
+        return (self._cos_theta * self.width + self._sin_theta * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (self._cos_theta * self.height + self._sin_theta * self.width)
+
+
+class ChamferRectangle(Primitive):
+    """
+    """
+    def __init__(self, position, width, height, chamfer, corners=None, **kwargs):
+        super(ChamferRectangle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._chamfer = chamfer
+        self._corners = corners if corners is not None else [True] * 4
+        self._to_convert = ['position', 'width', 'height', 'chamfer']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def chamfer(self):
+        return self._chamfer
+
+    @chamfer.setter
+    def chamfer(self, value):
+        self._changed()
+        self._chamfer = value
+
+    @property
+    def corners(self):
+        return self._corners
+
+    @corners.setter
+    def corners(self, value):
+        self._changed()
+        self._corners = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            vertices = []
+            delta_w = self.width / 2.
+            delta_h = self.height / 2.
+            # order is UR, UL, LL, LR
+            rect_corners = [
+                ((self.position[0] + delta_w), (self.position[1] + delta_h)),
+                ((self.position[0] - delta_w), (self.position[1] + delta_h)),
+                ((self.position[0] - delta_w), (self.position[1] - delta_h)),
+                ((self.position[0] + delta_w), (self.position[1] - delta_h))
+            ]
+            for idx, params in enumerate(zip(rect_corners, self.corners)):
+                corner, chamfered = params
+                x, y = corner
+                if chamfered:
+                    if idx == 0:
+                        vertices.append((x - self.chamfer, y))
+                        vertices.append((x, y - self.chamfer))
+                    elif idx == 1:
+                        vertices.append((x + self.chamfer, y))
+                        vertices.append((x, y - self.chamfer))
+                    elif idx == 2:
+                        vertices.append((x + self.chamfer, y))
+                        vertices.append((x, y + self.chamfer))
+                    elif idx == 3:
+                        vertices.append((x - self.chamfer, y))
+                        vertices.append((x, y + self.chamfer))
+                else:
+                    vertices.append(corner)
+            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
+                               (x * self._sin_theta + y * self._cos_theta))
+                              for x, y in vertices]
+        return self._vertices
+
+    @property
+    def axis_aligned_width(self):
+        return (self._cos_theta * self.width +
+                self._sin_theta * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (self._cos_theta * self.height +
+                self._sin_theta * self.width)
+
+
+class RoundRectangle(Primitive):
+    """
+    """
+
+    def __init__(self, position, width, height, radius, corners, **kwargs):
+        super(RoundRectangle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._radius = radius
+        self._corners = corners
+        self._to_convert = ['position', 'width', 'height', 'radius']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def radius(self):
+        return self._radius
+
+    @radius.setter
+    def radius(self, value):
+        self._changed()
+        self._radius = value
+
+    @property
+    def corners(self):
+        return self._corners
+
+    @corners.setter
+    def corners(self, value):
+        self._changed()
+        self._corners = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def axis_aligned_width(self):
+        return (self._cos_theta * self.width +
+                self._sin_theta * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (self._cos_theta * self.height +
+                self._sin_theta * self.width)
+
+
+class Obround(Primitive):
+    """
+    """
+
+    def __init__(self, position, width, height, hole_diameter=0,
+                 hole_width=0,hole_height=0, **kwargs):
+        super(Obround, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
+                            'hole_width', 'hole_height' ]
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def hole_radius(self):
+        """The radius of the hole. If there is no hole, returns None"""
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+
+        return None
+
+    @property
+    def orientation(self):
+        return 'vertical' if self.height > self.width else 'horizontal'
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def subshapes(self):
+        if self.orientation == 'vertical':
+            circle1 = Circle((self.position[0], self.position[1] +
+                              (self.height - self.width) / 2.), self.width)
+            circle2 = Circle((self.position[0], self.position[1] -
+                              (self.height - self.width) / 2.), self.width)
+            rect = Rectangle(self.position, self.width,
+                             (self.height - self.width))
+        else:
+            circle1 = Circle((self.position[0]
+                              - (self.height - self.width) / 2.,
+                              self.position[1]), self.height)
+            circle2 = Circle((self.position[0]
+                              + (self.height - self.width) / 2.,
+                              self.position[1]), self.height)
+            rect = Rectangle(self.position, (self.width - self.height),
+                             self.height)
+        return {'circle1': circle1, 'circle2': circle2, 'rectangle': rect}
+
+    @property
+    def axis_aligned_width(self):
+        return (self._cos_theta * self.width +
+                self._sin_theta * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (self._cos_theta * self.height +
+                self._sin_theta * self.width)
+
+
+class Polygon(Primitive):
+    """
+    Polygon flash defined by a set number of sides.
+    """
+    def __init__(self, position, sides, radius, hole_diameter=0,
+                 hole_width=0, hole_height=0, **kwargs):
+        super(Polygon, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self.sides = sides
+        self._radius = radius
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'radius', 'hole_diameter',
+                            'hole_width', 'hole_height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def diameter(self):
+        return self.radius * 2
+
+    @property
+    def hole_radius(self):
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+        return None
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def radius(self):
+        return self._radius
+
+    @radius.setter
+    def radius(self, value):
+        self._changed()
+        self._radius = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
+
+    @property
+    def vertices(self):
+
+        offset = self.rotation
+        delta_angle = 360.0 / self.sides
+
+        points = []
+        for i in range(self.sides):
+            points.append(
+                rotate_point((self.position[0] + self.radius, self.position[1]), offset + delta_angle * i, self.position))
+        return points
+
+
+    def equivalent(self, other, offset):
+        """
+        Is this the outline the same as the other, ignoring the position offset?
+        """
+
+        # Quick check if it even makes sense to compare them
+        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
+            return False
+
+        equiv_pos = tuple(map(add, other.position, offset))
+
+        return nearly_equal(self.position, equiv_pos)
+
+
+class AMGroup(Primitive):
+    """
+    """
+    def __init__(self, amprimitives, stmt = None, **kwargs):
+        """
+
+        stmt : The original statment that generated this, since it is really hard to re-generate from primitives
+        """
+        super(AMGroup, self).__init__(**kwargs)
+
+        self.primitives = []
+        for amprim in amprimitives:
+            prim = amprim.to_primitive(self.units)
+            if isinstance(prim, list):
+                for p in prim:
+                    self.primitives.append(p)
+            elif prim:
+                self.primitives.append(prim)
+        self._position = None
+        self._to_convert = ['_position', 'primitives']
+        self.stmt = stmt
+
+    def to_inch(self):
+        if self.units == 'metric':
+            super(AMGroup, self).to_inch()
+
+            # If we also have a stmt, convert that too
+            if self.stmt:
+                self.stmt.to_inch()
+
+
+    def to_metric(self):
+        if self.units == 'inch':
+            super(AMGroup, self).to_metric()
+
+            # If we also have a stmt, convert that too
+            if self.stmt:
+                self.stmt.to_metric()
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def bounding_box(self):
+        # TODO Make this cached like other items
+        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
+
+    @property
+    def position(self):
+        return self._position
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._position = tuple(map(add, self._position, (x_offset, y_offset)))
+
+        for primitive in self.primitives:
+            primitive.offset(x_offset, y_offset)
+
+    @position.setter
+    def position(self, new_pos):
+        '''
+        Sets the position of the AMGroup.
+        This offset all of the objects by the specified distance.
+        '''
+
+        if self._position:
+            dx = new_pos[0] - self._position[0]
+            dy = new_pos[1] - self._position[1]
+        else:
+            dx = new_pos[0]
+            dy = new_pos[1]
+
+        for primitive in self.primitives:
+            primitive.offset(dx, dy)
+
+        self._position = new_pos
+
+    def equivalent(self, other, offset):
+        '''
+        Is this the macro group the same as the other, ignoring the position offset?
+        '''
+
+        if len(self.primitives) != len(other.primitives):
+            return False
+
+        # We know they have the same number of primitives, so now check them all
+        for i in range(0, len(self.primitives)):
+            if not self.primitives[i].equivalent(other.primitives[i], offset):
+                return False
+
+        # If we didn't find any differences, then they are the same
+        return True
+
+class Outline(Primitive):
+    """
+    Outlines only exist as the rendering for a apeture macro outline.
+    They don't exist outside of AMGroup objects
+    """
+
+    def __init__(self, primitives, **kwargs):
+        super(Outline, self).__init__(**kwargs)
+        self.primitives = primitives
+        self._to_convert = ['primitives']
+
+        if self.primitives[0].start != self.primitives[-1].end:
+            raise ValueError('Outline must be closed')
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+            minx, maxx = zip(*xlims)
+            miny, maxy = zip(*ylims)
+            min_x = min(minx)
+            max_x = max(maxx)
+            min_y = min(miny)
+            max_y = max(maxy)
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        for p in self.primitives:
+            p.offset(x_offset, y_offset)
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            theta = math.radians(360/self.sides)
+            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
+                         self.position[1] + (math.sin(theta * side) * self.radius))
+                        for side in range(self.sides)]
+            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
+                               ((x * self._sin_theta) + (y * self._cos_theta)))
+                              for x, y in vertices]
+        return self._vertices
+
+    @property
+    def width(self):
+        bounding_box = self.bounding_box()
+        return bounding_box[0][1] - bounding_box[0][0]
+
+    def equivalent(self, other, offset):
+        '''
+        Is this the outline the same as the other, ignoring the position offset?
+        '''
+
+        # Quick check if it even makes sense to compare them
+        if type(self) != type(other) or len(self.primitives) != len(other.primitives):
+            return False
+
+        for i in range(0, len(self.primitives)):
+            if not self.primitives[i].equivalent(other.primitives[i], offset):
+                return False
+
+        return True
+
+class Region(Primitive):
+    """
+    """
+
+    def __init__(self, primitives, **kwargs):
+        super(Region, self).__init__(**kwargs)
+        self.primitives = primitives
+        self._to_convert = ['primitives']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
+            minx, maxx = zip(*xlims)
+            miny, maxy = zip(*ylims)
+            min_x = min(minx)
+            max_x = max(maxx)
+            min_y = min(miny)
+            max_y = max(maxy)
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        for p in self.primitives:
+            p.offset(x_offset, y_offset)
+
+
+class RoundButterfly(Primitive):
+    """ A circle with two diagonally-opposite quadrants removed
+    """
+
+    def __init__(self, position, diameter, **kwargs):
+        super(RoundButterfly, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self.position = position
+        self.diameter = diameter
+        self._to_convert = ['position', 'diameter']
+
+        # TODO This does not reset bounding box correctly
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def radius(self):
+        return self.diameter / 2.
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+
+class SquareButterfly(Primitive):
+    """ A square with two diagonally-opposite quadrants removed
+    """
+
+    def __init__(self, position, side, **kwargs):
+        super(SquareButterfly, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self.position = position
+        self.side = side
+        self._to_convert = ['position', 'side']
+
+        # TODO This does not reset bounding box correctly
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - (self.side / 2.)
+            max_x = self.position[0] + (self.side / 2.)
+            min_y = self.position[1] - (self.side / 2.)
+            max_y = self.position[1] + (self.side / 2.)
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+
+class Donut(Primitive):
+    """ A Shape with an identical concentric shape removed from its center
+    """
+
+    def __init__(self, position, shape, inner_diameter,
+                 outer_diameter, **kwargs):
+        super(Donut, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self.position = position
+        if shape not in ('round', 'square', 'hexagon', 'octagon'):
+            raise ValueError(
+                'Valid shapes are round, square, hexagon or octagon')
+        self.shape = shape
+        if inner_diameter >= outer_diameter:
+            raise ValueError(
+                'Outer diameter must be larger than inner diameter.')
+        self.inner_diameter = inner_diameter
+        self.outer_diameter = outer_diameter
+        if self.shape in ('round', 'square', 'octagon'):
+            self.width = outer_diameter
+            self.height = outer_diameter
+        else:
+            # Hexagon
+            self.width = 0.5 * math.sqrt(3.) * outer_diameter
+            self.height = outer_diameter
+
+        self._to_convert = ['position', 'width',
+                            'height', 'inner_diameter', 'outer_diameter']
+
+        # TODO This does not reset bounding box correctly
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def lower_left(self):
+        return (self.position[0] - (self.width / 2.),
+                self.position[1] - (self.height / 2.))
+
+    @property
+    def upper_right(self):
+        return (self.position[0] + (self.width / 2.),
+                self.position[1] + (self.height / 2.))
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.width / 2.),
+                  self.position[1] - (self.height / 2.))
+            ur = (self.position[0] + (self.width / 2.),
+                  self.position[1] + (self.height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+
+class SquareRoundDonut(Primitive):
+    """ A Square with a circular cutout in the center
+    """
+
+    def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
+        super(SquareRoundDonut, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self.position = position
+        if inner_diameter >= outer_diameter:
+            raise ValueError(
+                'Outer diameter must be larger than inner diameter.')
+        self.inner_diameter = inner_diameter
+        self.outer_diameter = outer_diameter
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = tuple([c - self.outer_diameter / 2. for c in self.position])
+            ur = tuple([c + self.outer_diameter / 2. for c in self.position])
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+
+class Drill(Primitive):
+    """ A drill hole
+    """
+    def __init__(self, position, diameter, **kwargs):
+        super(Drill, self).__init__('dark', **kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._diameter = diameter
+        self._to_convert = ['position', 'diameter']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
+    @property
+    def radius(self):
+        return self.diameter / 2.
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
+
+    def __str__(self):
+        return '<Drill %f %s (%f, %f)>' % (self.diameter, self.units, self.position[0], self.position[1])
+
+
+class Slot(Primitive):
+    """ A drilled slot
+    """
+    def __init__(self, start, end, diameter, **kwargs):
+        super(Slot, self).__init__('dark', **kwargs)
+        validate_coordinates(start)
+        validate_coordinates(end)
+        self.start = start
+        self.end = end
+        self.diameter = diameter
+        self._to_convert = ['start', 'end', 'diameter']
+
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            radius = self.diameter / 2.
+            min_x = min(self.start[0], self.end[0]) - radius
+            max_x = max(self.start[0], self.end[0]) + radius
+            min_y = min(self.start[1], self.end[1]) - radius
+            max_y = max(self.start[1], self.end[1]) + radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
+        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
+
+
+class TestRecord(Primitive):
+    """ Netlist Test record
+    """
+
+    def __init__(self, position, net_name, layer, **kwargs):
+        super(TestRecord, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self.position = position
+        self.net_name = net_name
+        self.layer = layer
+        self._to_convert = ['position']
-- 
2.43.0


From 09b64fc2db86861bf45d27f9385a9eed90092eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 005/117] fix: bounding box of single-quadrant arcs that pass
 an axis

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e3c5218..a389cc4 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -415,7 +415,7 @@ class Arc(Primitive):
             theta0 = (self.start_angle + two_pi) % two_pi
             theta1 = (self.end_angle + two_pi) % two_pi
             points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant':
+            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
                 if self.direction == 'counterclockwise':
                     # Passes through 0 degrees
                     if theta0 >= theta1:
@@ -470,7 +470,7 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant':
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From 626de9b23278da44b4abbf02144e2cf84b302ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 006/117] fix: subtraction in aperture macro expressions

---
 gerber/am_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/am_eval.py b/gerber/am_eval.py
index 3a7e1ed..e517ecd 100644
--- a/gerber/am_eval.py
+++ b/gerber/am_eval.py
@@ -92,7 +92,7 @@ def eval_macro(instructions, parameters={}):
         elif opcode == OpCode.SUB:
             op1 = pop()
             op2 = pop()
-            push(op2 - op2)
+            push(op2 - op1)
 
         elif opcode == OpCode.MUL:
             op1 = pop()
-- 
2.43.0


From e1d48d51e6b6a0573136b346962601814d0ca92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 007/117] fix: signs and binary minus in aperture macro
 expressions

---
 gerber/am_read.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4aff00b..0675b24 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -170,10 +170,16 @@ def read_macro(macro):
                 unary_minus_allowed = True
 
             elif c in Token.OPERATORS:
-                if c == Token.SUB and unary_minus_allowed:
-                    unary_minus = True
-                    unary_minus_allowed = False
+                if c in (Token.ADD, Token.SUB) and unary_minus_allowed:
+                    if c == Token.SUB:
+                        if scanner.peek() in string.digits + ".":
+                            unary_minus = True
+                        else:
+                            # sign of a variable or a parenthesis
+                            instructions.append((OpCode.PUSH, -1))
+                            push(Token.MULT[0])
                     continue
+                unary_minus_allowed = True
 
                 while not empty() and is_op(top()) and precedence(top()) >= precedence(c):
                     instructions.append((token_to_opcode(pop()), None))
@@ -182,6 +188,7 @@ def read_macro(macro):
 
             elif c == Token.LEFT_PARENS:
                 push(c)
+                unary_minus_allowed = True
 
             elif c == Token.RIGHT_PARENS:
                 while not empty() and top() != Token.LEFT_PARENS:
@@ -192,6 +199,7 @@ def read_macro(macro):
 
                 # discard "("
                 pop()
+                unary_minus_allowed = False
 
             elif c.startswith("$"):
                 n = scanner.readint()
@@ -200,9 +208,11 @@ def read_macro(macro):
                     equation_left_side = n
                 else:
                     instructions.append((OpCode.LOAD, n))
+                    unary_minus_allowed = False
 
             elif c == Token.EQUALS:
                 found_equation_left_side = True
+                unary_minus_allowed = True
 
             elif c == "0":
                 if is_primitive and not found_primitive_code:
@@ -212,6 +222,8 @@ def read_macro(macro):
                     # decimal or integer disambiguation
                     if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
                         instructions.append((OpCode.PUSH, 0))
+                        unary_minus = False
+                        unary_minus_allowed = False
 
             elif c in "123456789.":
                 scanner.ungetc()
@@ -220,6 +232,7 @@ def read_macro(macro):
                     primitive_code = scanner.readint()
                 else:
                     n = scanner.readfloat()
+                    unary_minus_allowed = False
                     if unary_minus:
                         unary_minus = False
                         n *= -1
-- 
2.43.0


From 688a822d3983d6b5ee017a11a6aa70003129064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 008/117] fix: equals sign in an aperture macro comment

---
 gerber/am_read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 0675b24..4222c59 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -134,7 +134,8 @@ def read_macro(macro):
         unary_minus_allowed = False
         unary_minus = False
 
-        if Token.EQUALS in block:
+        # a comment (primitive code 0) may contain an equals sign
+        if Token.EQUALS in block and not block.lstrip().startswith("0"):
             is_equation = True
         else:
             is_primitive = True
-- 
2.43.0


From 0847d5d8db8ded72dba028a4164297407243875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 009/117] fix: connect the outline segments of macro lines and
 thermals end to end

---
 gerber/am_statements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index bf25484..7915958 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -329,6 +329,8 @@ class AMVectorLinePrimitive(AMPrimitive):
 
             lines.append(Line(prev_point, cur_point, aperture))
 
+            prev_point = cur_point
+
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
 
@@ -823,7 +825,7 @@ class AMThermalPrimitive(AMPrimitive):
 
                 lines.append(Line(prev_point, cur_point, aperture))
 
-            prev_point = cur_point
+                prev_point = cur_point
 
             outlines.append(Outline(lines, units=units, level_polarity=self._level_polarity))
 
@@ -942,6 +944,8 @@ class AMCenterLinePrimitive(AMPrimitive):
 
             lines.append(Line(prev_point, cur_point, aperture))
 
+            prev_point = cur_point
+
         return Outline(lines, units=units, level_polarity=self._level_polarity)
 
 
-- 
2.43.0


From 32b39d011bcfc2573306eae6936bf5c3ce93c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 010/117] fix: area of vector lines in aperture macros

---
 gerber/am_statements.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 7915958..994a5ec 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -316,9 +316,17 @@ class AMVectorLinePrimitive(AMPrimitive):
         when rotated.
         """
 
-        # Use a line to generate our vertices easily
-        line = Line(self.start, self.end, Rectangle(None, self.width, self.width))
-        vertices = line.vertices
+        # The corners of the rectangle: the line ends are square and flush
+        # with the start and end points
+        dx = self.end[0] - self.start[0]
+        dy = self.end[1] - self.start[1]
+        length = math.sqrt(dx * dx + dy * dy)
+        ox = -dy / length * self.width / 2. if length else 0.
+        oy = dx / length * self.width / 2. if length else self.width / 2.
+        vertices = [(self.start[0] + ox, self.start[1] + oy),
+                    (self.start[0] - ox, self.start[1] - oy),
+                    (self.end[0] - ox, self.end[1] - oy),
+                    (self.end[0] + ox, self.end[1] + oy)]
 
         aperture = Circle((0, 0), 0)
 
-- 
2.43.0


From 146229086b24c2cf6cfc42fe23cf308db3976341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 011/117] fix: rotate macro polygons, centre lines and thermals
 about the macro origin

---
 gerber/am_statements.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 994a5ec..5eb0635 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -557,7 +557,9 @@ class AMPolygonPrimitive(AMPrimitive):
         return fmt.format(**data)
 
     def to_primitive(self, units):
-        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)
+        # The rotation is about the macro origin
+        position = rotate_point(self.position, self.rotation)
+        return Polygon(position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)
 
 
 class AMMoirePrimitive(AMPrimitive):
@@ -808,7 +810,9 @@ class AMThermalPrimitive(AMPrimitive):
         inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
         outer_offset_angle = asin(self.gap / 2.0 / outer_radius)
 
+        # The rotation is about the macro origin, so the center rotates as well
         rotation_rad = math.radians(self.rotation)
+        center = rotate_point(self.position, self.rotation)
         inner_start_angle = inner_offset_angle + rotation_rad
         inner_end_angle =  math.pi / 2 - inner_offset_angle + rotation_rad
 
@@ -818,8 +822,8 @@ class AMThermalPrimitive(AMPrimitive):
         outlines = []
         aperture = Circle((0, 0), 0)
 
-        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, self.position)
-                + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, self.position))))
+        points = (self._approximate_arc_cw(inner_start_angle, inner_end_angle, inner_radius, center)
+                + list(reversed(self._approximate_arc_cw(outer_start_angle, outer_end_angle, outer_radius, center))))
         # Add in the last point since outlines should be closed
         points.append(points[0])
 
@@ -827,9 +831,9 @@ class AMThermalPrimitive(AMPrimitive):
         for rotation in [0, 90.0, 180.0, 270.0]:
 
             lines = []
-            prev_point = rotate_point(points[0], rotation, self.position)
+            prev_point = rotate_point(points[0], rotation, center)
             for point in points[1:]:
-                cur_point = rotate_point(point, rotation, self.position)
+                cur_point = rotate_point(point, rotation, center)
 
                 lines.append(Line(prev_point, cur_point, aperture))
 
@@ -867,7 +871,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         X and Y coordinates of line center
 
     rotation : float
-        rectangle rotation about its center.
+        rectangle rotation about the macro origin.
 
     Returns
     -------
@@ -946,9 +950,10 @@ class AMCenterLinePrimitive(AMPrimitive):
         aperture = Circle((0, 0), 0)
 
         lines = []
-        prev_point = rotate_point(points[3], self.rotation, self.center)
+        # The rotation is about the macro origin
+        prev_point = rotate_point(points[3], self.rotation)
         for point in points:
-            cur_point = rotate_point(point, self.rotation, self.center)
+            cur_point = rotate_point(point, self.rotation)
 
             lines.append(Line(prev_point, cur_point, aperture))
 
-- 
2.43.0


From 5ccd1de7e85212a7957dd8da101986c153a82deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 012/117] fix: honour the rotation of circles in aperture
 macros

---
 gerber/am_statements.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 5eb0635..78b18fe 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -171,6 +171,9 @@ class AMCirclePrimitive(AMPrimitive):
     position : tuple (<float>, <float>)
         Position of the circle relative to the macro origin
 
+    rotation : float
+        Rotation of the circle center about the macro origin (optional)
+
     Returns
     -------
     CirclePrimitive : :class:`gerber.am_statements.AMCirclePrimitive`
@@ -187,19 +190,22 @@ class AMCirclePrimitive(AMPrimitive):
         exposure = 'on' if float(modifiers[1]) == 1 else 'off'
         diameter = float(modifiers[2])
         position = (float(modifiers[3]), float(modifiers[4]))
-        return cls(code, exposure, diameter, position)
+        # The rotation is optional
+        rotation = float(modifiers[5]) if len(modifiers) > 5 else 0
+        return cls(code, exposure, diameter, position, rotation)
 
     @classmethod
     def from_primitive(cls, primitive):
         return cls(1, 'on', primitive.diameter, primitive.position)
 
-    def __init__(self, code, exposure, diameter, position):
+    def __init__(self, code, exposure, diameter, position, rotation=0):
         validate_coordinates(position)
         if code != 1:
             raise ValueError('CirclePrimitive code is 1')
         super(AMCirclePrimitive, self).__init__(code, exposure)
         self.diameter = diameter
         self.position = position
+        self.rotation = rotation
 
     def to_inch(self):
         self.diameter = inch(self.diameter)
@@ -215,10 +221,13 @@ class AMCirclePrimitive(AMPrimitive):
                     diameter=self.diameter,
                     x=self.position[0],
                     y=self.position[1])
+        if self.rotation:
+            return '{code},{exposure},{diameter},{x},{y},{rotation}*'.format(rotation=self.rotation, **data)
         return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
 
     def to_primitive(self, units):
-        return Circle((self.position), self.diameter, units=units, level_polarity=self._level_polarity)
+        position = rotate_point(self.position, self.rotation) if self.rotation else self.position
+        return Circle(position, self.diameter, units=units, level_polarity=self._level_polarity)
 
 
 class AMVectorLinePrimitive(AMPrimitive):
-- 
2.43.0


From 96f64cb41ea2be1106f64deac4b742f20af2985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 013/117] fix: thermals whose inner circle lies within the gaps

---
 gerber/am_statements.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 78b18fe..073e4cf 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -815,8 +815,12 @@ class AMThermalPrimitive(AMPrimitive):
         inner_radius = self.inner_diameter / 2.0
         outer_radius = self.outer_diameter / 2.0
 
+        # The inner circle may lie within the gaps (or not exist at all). The
+        # sections then start at the corner where the gaps cross.
+        inner_radius = max(inner_radius, self.gap / math.sqrt(2.0))
+
         # Calculate the start angle relative to the horizontal axis
-        inner_offset_angle = asin(self.gap / 2.0 / inner_radius)
+        inner_offset_angle = asin(self.gap / 2.0 / inner_radius) if inner_radius else 0.0
         outer_offset_angle = asin(self.gap / 2.0 / outer_radius)
 
         # The rotation is about the macro origin, so the center rotates as well
-- 
2.43.0


From c401ed69c4fb60a2f210b62d9cc3687eeb3e1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 014/117] fix: keep the interpolation mode after arcs in
 regions

---
 gerber/rs274x.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index b5cdc4d..0d4cd7e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -690,9 +690,6 @@ class GerberParser(object):
                                                        quadrant_mode=self.quadrant_mode,
                                                        level_polarity=self.level_polarity,
                                                        units=self.settings.units))
-                    # Gerbv seems to reset interpolation mode in regions..
-                    # TODO: Make sure this is right.
-                    self.interpolation = 'linear'
 
         elif self.op == "D02" or self.op == "D2":
 
-- 
2.43.0


From 432be67b69d194005ccfe0496e411aa68aa0dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 015/117] fix: read macro constants with leading zeros

---
 gerber/am_read.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/gerber/am_read.py b/gerber/am_read.py
index 4222c59..e6b9b42 100644
--- a/gerber/am_read.py
+++ b/gerber/am_read.py
@@ -215,18 +215,12 @@ def read_macro(macro):
                 found_equation_left_side = True
                 unary_minus_allowed = True
 
-            elif c == "0":
-                if is_primitive and not found_primitive_code:
-                    instructions.append((OpCode.PUSH, scanner.readstr("*")))
-                    found_primitive_code = True
-                else:
-                    # decimal or integer disambiguation
-                    if scanner.peek() not in '.' or scanner.peek() == Token.EOF:
-                        instructions.append((OpCode.PUSH, 0))
-                        unary_minus = False
-                        unary_minus_allowed = False
+            elif c == "0" and is_primitive and not found_primitive_code:
+                # comment
+                instructions.append((OpCode.PUSH, scanner.readstr("*")))
+                found_primitive_code = True
 
-            elif c in "123456789.":
+            elif c in "0123456789.":
                 scanner.ungetc()
 
                 if is_primitive and not found_primitive_code:
-- 
2.43.0


From 1355cdb9fe7fc6ac748d7bfa9020e030fb0f3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 016/117] fix: write aperture and macro dimensions at full
 precision

---
 gerber/am_statements.py     | 54 ++++++++++++++++++++++++-------------
 gerber/gerber_statements.py |  9 ++++++-
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 073e4cf..9afb8f3 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -31,6 +31,22 @@ __all__ = ['AMPrimitive', 'AMCommentPrimitive', 'AMCirclePrimitive',
            'AMLowerLeftLinePrimitive', 'AMUnsupportPrimitive']
 
 
+def _number(value, fmt='%s'):
+    """ Number as a string without exponent, which macros do not support
+    """
+    text = fmt % value
+    return text if 'e' not in text else ('%.15f' % value).rstrip('0').rstrip('.')
+
+
+def _point(point):
+    return ','.join([_number(coord, '%.15g') for coord in point])
+
+
+def _format(fmt, **data):
+    return fmt.format(**dict((key, _number(value) if isinstance(value, float) else value)
+                             for key, value in data.items()))
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -222,8 +238,8 @@ class AMCirclePrimitive(AMPrimitive):
                     x=self.position[0],
                     y=self.position[1])
         if self.rotation:
-            return '{code},{exposure},{diameter},{x},{y},{rotation}*'.format(rotation=self.rotation, **data)
-        return '{code},{exposure},{diameter},{x},{y}*'.format(**data)
+            return _format('{code},{exposure},{diameter},{x},{y},{rotation}*', rotation=self.rotation, **data)
+        return _format('{code},{exposure},{diameter},{x},{y}*', **data)
 
     def to_primitive(self, units):
         position = rotate_point(self.position, self.rotation) if self.rotation else self.position
@@ -316,7 +332,7 @@ class AMVectorLinePrimitive(AMPrimitive):
                     endx=self.end[0],
                     endy=self.end[1],
                     rotation=self.rotation)
-        return fmtstr.format(**data)
+        return _format(fmtstr, **data)
 
     def to_primitive(self, units):
         """
@@ -445,11 +461,11 @@ class AMOutlinePrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             n_points=len(self.points),
-            start_point="%.6g,%.6g" % self.start_point,
-            points=",\n".join(["%.6g,%.6g" % point for point in self.points]),
-            rotation=str(self.rotation)
+            start_point=_point(self.start_point),
+            points=",\n".join([_point(point) for point in self.points]),
+            rotation=self.rotation
         )
-        return "{code},{exposure},{n_points},{start_point},{points},{rotation}*".format(**data)
+        return _format("{code},{exposure},{n_points},{start_point},{points},{rotation}*", **data)
 
     def to_primitive(self, units):
         """
@@ -558,12 +574,12 @@ class AMPolygonPrimitive(AMPrimitive):
             code=self.code,
             exposure="1" if self.exposure == "on" else "0",
             vertices=self.vertices,
-            position="%.4g,%.4g" % self.position,
-            diameter='%.4g' % self.diameter,
-            rotation=str(self.rotation)
+            position=_point(self.position),
+            diameter=_number(self.diameter, '%.15g'),
+            rotation=self.rotation
         )
         fmt = "{code},{exposure},{vertices},{position},{diameter},{rotation}*"
-        return fmt.format(**data)
+        return _format(fmt, **data)
 
     def to_primitive(self, units):
         # The rotation is about the macro origin
@@ -669,7 +685,7 @@ class AMMoirePrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position=_point(self.position),
             diameter=self.diameter,
             ring_thickness=self.ring_thickness,
             gap=self.gap,
@@ -679,7 +695,7 @@ class AMMoirePrimitive(AMPrimitive):
             rotation=self.rotation
         )
         fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*"
-        return fmt.format(**data)
+        return _format(fmt, **data)
 
     def to_primitive(self, units):
         #raise NotImplementedError()
@@ -762,14 +778,14 @@ class AMThermalPrimitive(AMPrimitive):
     def to_gerber(self, settings=None):
         data = dict(
             code=self.code,
-            position="%.4g,%.4g" % self.position,
+            position=_point(self.position),
             outer_diameter=self.outer_diameter,
             inner_diameter=self.inner_diameter,
             gap=self.gap,
             rotation=self.rotation
         )
         fmt = "{code},{position},{outer_diameter},{inner_diameter},{gap},{rotation}*"
-        return fmt.format(**data)
+        return _format(fmt, **data)
 
     def _approximate_arc_cw(self, start_angle, end_angle, radius, center):
         """
@@ -941,11 +957,11 @@ class AMCenterLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            center="%.4g,%.4g" % self.center,
+            center=_point(self.center),
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{center},{rotation}*"
-        return fmt.format(**data)
+        return _format(fmt, **data)
 
     def to_primitive(self, units):
 
@@ -1050,11 +1066,11 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
             exposure = '1' if self.exposure == 'on' else '0',
             width = self.width,
             height = self.height,
-            lower_left="%.4g,%.4g" % self.lower_left,
+            lower_left=_point(self.lower_left),
             rotation=self.rotation
         )
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
-        return fmt.format(**data)
+        return _format(fmt, **data)
 
 
 class AMUnsupportPrimitive(AMPrimitive):
diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 28f5e81..a844128 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -264,6 +264,13 @@ class LPParamStmt(ParamStmt):
         return '<Level Polarity: %s>' % self.lp
 
 
+def _number(value):
+    """ Aperture modifier as a string (decimal notation at full precision)
+    """
+    text = '%.15g' % value
+    return text if 'e' not in text else ('%.15f' % value).rstrip('0').rstrip('.')
+
+
 class ADParamStmt(ParamStmt):
     """ AD - Gerber Aperture Definition Statement
     """
@@ -369,7 +376,7 @@ class ADParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if any(self.modifiers):
-            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join(["%.4g" % x for x in modifier]) for modifier in self.modifiers]))
+            return '%ADD{0}{1},{2}*%'.format(self.d, self.shape, ','.join(['X'.join([_number(x) for x in modifier]) for modifier in self.modifiers]))
         else:
             return '%ADD{0}{1}*%'.format(self.d, self.shape)
 
-- 
2.43.0


From 31c7ad5e646105476f2dac4ba599d864961867f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 017/117] fix: convert only the lengths among aperture
 modifiers

---
 gerber/gerber_statements.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index a844128..481237c 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -365,13 +365,20 @@ class ADParamStmt(ParamStmt):
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
-            self.modifiers = [tuple([inch(x) for x in modifier])
-                              for modifier in self.modifiers]
+            self._convert(inch)
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
-            self.modifiers = [tuple([metric(x) for x in modifier])
+            self._convert(metric)
+
+    def _convert(self, conversion):
+        # Macro parameters keep their value (see AMParamStmt)
+        if self.shape in ('C', 'R', 'O', 'P'):
+            # The number of vertices and the rotation of polygons are not lengths
+            keep = (1, 2) if self.shape == 'P' else ()
+            self.modifiers = [tuple([x if i in keep else conversion(x)
+                                     for i, x in enumerate(modifier)])
                               for modifier in self.modifiers]
 
     def to_gerber(self, settings=None):
-- 
2.43.0


From 70fe6dc3b08c465b1370d786695e90f2bc1b73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 018/117] fix: write parametrized macros as macros

---
 gerber/gerber_statements.py | 43 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 481237c..d8b8593 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -20,6 +20,8 @@ Gerber (RS-274X) Statements
 **Gerber RS-274X file statement classes**
 
 """
+import copy
+
 from .utils import (parse_gerber_value, write_gerber_value, decimal_string,
                     inch, metric)
 
@@ -404,6 +406,11 @@ class AMParamStmt(ParamStmt):
     """ AM - Aperture Macro Statement
     """
 
+    # Modifiers that are lengths, by primitive code: (first, end, except)
+    LENGTHS = {'1': (2, 5, None), '2': (2, 7, None), '20': (2, 7, None),
+               '21': (2, 6, None), '22': (2, 6, None), '4': (3, None, None),
+               '5': (3, 6, None), '6': (1, 9, 6), '7': (1, 6, None)}
+
     @classmethod
     def from_dict(cls, stmt_dict):
         return cls(**stmt_dict)
@@ -434,12 +441,18 @@ class AMParamStmt(ParamStmt):
 
         self.instructions = self.read(macro)
         self.primitives = []
+        # Whether any aperture passed parameters to the macro
+        self.parametrized = False
+        # Units the macro was converted to since it was read
+        self.converted = None
 
     def read(self, macro):
         return read_macro(macro)
 
     def build(self, modifiers=[[]]):
         self.primitives = []
+        if modifiers[0]:
+            self.parametrized = True
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
             if primitive[0] == '0':
@@ -465,21 +478,49 @@ class AMParamStmt(ParamStmt):
                 self.primitives.append(
                     AMUnsupportPrimitive.from_gerber(primitive))
 
-        return AMGroup(self.primitives, stmt=self, units=self.units)
+        # The aperture keeps its own evaluated macro, which later apertures
+        # using other parameters do not replace
+        stmt = copy.copy(self)
+        stmt.primitives = copy.deepcopy(self.primitives)
+        stmt.parametrized = False
+        return AMGroup(self.primitives, stmt=stmt, units=self.units)
 
     def to_inch(self):
         if self.units == 'metric':
             self.units = 'inch'
+            self.converted = None if self.converted else 'inch'
             for primitive in self.primitives:
                 primitive.to_inch()
 
     def to_metric(self):
         if self.units == 'inch':
             self.units = 'metric'
+            self.converted = None if self.converted else 'metric'
             for primitive in self.primitives:
                 primitive.to_metric()
 
+    def _macro_blocks(self):
+        """ Macro text with the lengths expressed in the current units.
+
+        Variables keep the units the macro was written in.
+        """
+        for block in self.macro.split('*'):
+            block = block.strip()
+            fields = block.split(',')
+            if not block:
+                continue
+            if self.converted and fields[0] in self.LENGTHS:
+                factor = '/25.4' if self.converted == 'inch' else 'x25.4'
+                first, last, excluded = self.LENGTHS[fields[0]]
+                last = last if last is not None else len(fields) - 1
+                fields = ['(%s)%s' % (field, factor)
+                          if first <= i < last and i != excluded else field
+                          for i, field in enumerate(fields)]
+            yield ','.join(fields) if fields[0] in self.LENGTHS else block
+
     def to_gerber(self, settings=None):
+        if self.parametrized or not self.primitives:
+            return '%AM{0}*{1}%'.format(self.name, ''.join([block + '*' for block in self._macro_blocks()]))
         return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
 
     def __str__(self):
-- 
2.43.0


From 834753e8cde3105e36c8c7b6c06d0f118c0edfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 019/117] fix: convert groups and regions of one object

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index a389cc4..4e4dbb2 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -135,7 +135,7 @@ class Primitive(object):
                     value.to_inch()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_inch'):
                                 for v in value:
                                     v.to_inch()
@@ -160,7 +160,7 @@ class Primitive(object):
                     value.to_metric()
                 else:
                     try:
-                        if len(value) > 1:
+                        if len(value) > 0:
                             if hasattr(value[0], 'to_metric'):
                                 for v in value:
                                     v.to_metric()
-- 
2.43.0


From e47dcfb4cb887ad3b8a4c31aab88d2a9ba8505c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 020/117] fix: convert the segments of macro outlines

---
 gerber/am_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 9afb8f3..6c67f6a 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -360,7 +360,7 @@ class AMVectorLinePrimitive(AMPrimitive):
         for point in vertices:
             cur_point = rotate_point(point, self.rotation, (0, 0))
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
             prev_point = cur_point
 
@@ -478,7 +478,7 @@ class AMOutlinePrimitive(AMPrimitive):
         for point in self.points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, Circle((0,0), 0)))
+            lines.append(Line(prev_point, cur_point, Circle((0,0), 0), units=units))
 
             prev_point = cur_point
 
@@ -864,7 +864,7 @@ class AMThermalPrimitive(AMPrimitive):
             for point in points[1:]:
                 cur_point = rotate_point(point, rotation, center)
 
-                lines.append(Line(prev_point, cur_point, aperture))
+                lines.append(Line(prev_point, cur_point, aperture, units=units))
 
                 prev_point = cur_point
 
@@ -984,7 +984,7 @@ class AMCenterLinePrimitive(AMPrimitive):
         for point in points:
             cur_point = rotate_point(point, self.rotation)
 
-            lines.append(Line(prev_point, cur_point, aperture))
+            lines.append(Line(prev_point, cur_point, aperture, units=units))
 
             prev_point = cur_point
 
-- 
2.43.0


From eba61bd4d29f0f9b19dbe16d54d3b54aa8be0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 021/117] fix: keep macro comments when writing

---
 gerber/am_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 6c67f6a..090dec0 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -137,6 +137,9 @@ class AMCommentPrimitive(AMPrimitive):
         primitive = primitive.strip()
         code = int(primitive[0])
         comment = primitive[1:]
+        # evaluated macros separate the code by a comma
+        if comment.startswith(','):
+            comment = comment[1:]
         return cls(code, comment)
 
     def __init__(self, code, comment):
-- 
2.43.0


From 05b0111d346a45624b048a074f7802fa41f49408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 022/117] fix: allow for coordinate rounding in the sweep of
 single-quadrant arcs

---
 gerber/rs274x.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 0d4cd7e..406e049 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -767,10 +767,11 @@ class GerberParser(object):
 
                 # Take the option with the lowest radius error from the set of
                 # options with a valid sweep angle
-                # In some rare cases, the sweep angle is numerically (10**-14) above pi/2
+                # Rounding of the coordinates to the resolution of the file can
+                # put the sweep angle above pi/2 (by the resolution over the radius)
                 # So it is safer to compare the angles with some tolerance
                 is_lowest_radius_error = sqdist_diff < sqdist_diff_min
-                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 1e-6
+                is_valid_sweep_angle = sweep_angle >= 0 and sweep_angle <= math.pi / 2.0 + 0.02
                 if is_lowest_radius_error and is_valid_sweep_angle:
                     center = test_center
                     sqdist_diff_min = sqdist_diff
-- 
2.43.0


From bd2a41e58c4c207515a774943591be9484549499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 023/117] fix: convert every aperture of a Gerber file, drawn
 with or not

---
 gerber/rs274x.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 406e049..145713c 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -161,6 +161,8 @@ class GerberFile(CamFile):
                 statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
+            for aperture in self.apertures:
+                aperture.to_inch()
 
     def to_metric(self):
         if self.units != 'metric':
@@ -169,6 +171,8 @@ class GerberFile(CamFile):
                 statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
+            for aperture in self.apertures:
+                aperture.to_metric()
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-- 
2.43.0


From a180241c6821ee48438e21764088c2df9e70dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 024/117] fix: bounding boxes of shapes rotated beyond a right
 angle

---
 gerber/primitives.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 4e4dbb2..48e3904 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -761,11 +761,13 @@ class Rectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
     def equivalent(self, other, offset):
         """Is this the same as the other rect, ignoring the offset?"""
@@ -856,11 +858,13 @@ class Diamond(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width + self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height + self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class ChamferRectangle(Primitive):
@@ -973,13 +977,13 @@ class ChamferRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class RoundRectangle(Primitive):
@@ -1057,13 +1061,13 @@ class RoundRectangle(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Obround(Primitive):
@@ -1158,13 +1162,13 @@ class Obround(Primitive):
 
     @property
     def axis_aligned_width(self):
-        return (self._cos_theta * self.width +
-                self._sin_theta * self.height)
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
 
     @property
     def axis_aligned_height(self):
-        return (self._cos_theta * self.height +
-                self._sin_theta * self.width)
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
 
 
 class Polygon(Primitive):
-- 
2.43.0


From 0e74da760e7398acddcb2dfe186d6354e0953eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 025/117] fix: refresh the box of slots, butterflies and donuts
 after changes

---
 gerber/primitives.py | 171 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 141 insertions(+), 30 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 48e3904..dc55d56 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1467,16 +1467,32 @@ class RoundButterfly(Primitive):
     def __init__(self, position, diameter, **kwargs):
         super(RoundButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.diameter = diameter
+        self._position = position
+        self._diameter = diameter
         self._to_convert = ['position', 'diameter']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def radius(self):
         return self.diameter / 2.
@@ -1499,16 +1515,32 @@ class SquareButterfly(Primitive):
     def __init__(self, position, side, **kwargs):
         super(SquareButterfly, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
-        self.side = side
+        self._position = position
+        self._side = side
         self._to_convert = ['position', 'side']
 
-        # TODO This does not reset bounding box correctly
-
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def side(self):
+        return self._side
+
+    @side.setter
+    def side(self, value):
+        self._changed()
+        self._side = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1528,7 +1560,7 @@ class Donut(Primitive):
                  outer_diameter, **kwargs):
         super(Donut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if shape not in ('round', 'square', 'hexagon', 'octagon'):
             raise ValueError(
                 'Valid shapes are round, square, hexagon or octagon')
@@ -1536,25 +1568,51 @@ class Donut(Primitive):
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
-        if self.shape in ('round', 'square', 'octagon'):
-            self.width = outer_diameter
-            self.height = outer_diameter
-        else:
-            # Hexagon
-            self.width = 0.5 * math.sqrt(3.) * outer_diameter
-            self.height = outer_diameter
-
-        self._to_convert = ['position', 'width',
-                            'height', 'inner_diameter', 'outer_diameter']
-
-        # TODO This does not reset bounding box correctly
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
+    @property
+    def width(self):
+        if self.shape == 'hexagon':
+            return 0.5 * math.sqrt(3.) * self.outer_diameter
+        return self.outer_diameter
+
+    @property
+    def height(self):
+        return self.outer_diameter
+
     @property
     def lower_left(self):
         return (self.position[0] - (self.width / 2.),
@@ -1583,18 +1641,45 @@ class SquareRoundDonut(Primitive):
     def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
         super(SquareRoundDonut, self).__init__(**kwargs)
         validate_coordinates(position)
-        self.position = position
+        self._position = position
         if inner_diameter >= outer_diameter:
             raise ValueError(
                 'Outer diameter must be larger than inner diameter.')
-        self.inner_diameter = inner_diameter
-        self.outer_diameter = outer_diameter
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
         self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
 
     @property
     def flashed(self):
         return True
 
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
@@ -1665,16 +1750,42 @@ class Slot(Primitive):
         super(Slot, self).__init__('dark', **kwargs)
         validate_coordinates(start)
         validate_coordinates(end)
-        self.start = start
-        self.end = end
-        self.diameter = diameter
+        self._start = start
+        self._end = end
+        self._diameter = diameter
         self._to_convert = ['start', 'end', 'diameter']
 
-
     @property
     def flashed(self):
         return False
 
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
     @property
     def bounding_box(self):
         if self._bounding_box is None:
-- 
2.43.0


From 0f2293bd569e89f17152bbe1865d5dc35051d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 026/117] fix: boxes of lines and arcs follow their aperture

---
 gerber/primitives.py | 83 ++++++++++----------------------------------
 1 file changed, 18 insertions(+), 65 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index dc55d56..958f3f4 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -202,6 +202,14 @@ class Primitive(object):
         for attr in self._memoized:
             setattr(self, attr, None)
 
+
+def _aperture_extent(aperture):
+    """ Half width and half height of the aperture used to draw a stroke """
+    if isinstance(aperture, (Circle, Polygon)):
+        return (aperture.radius, aperture.radius)
+    return (aperture.width / 2., aperture.height / 2.)
+
+
 class Line(Primitive):
     """
     """
@@ -245,19 +253,11 @@ class Line(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            if isinstance(self.aperture, Circle):
-                width_2 = self.aperture.radius
-                height_2 = width_2
-            else:
-                width_2 = self.aperture.width / 2.
-                height_2 = self.aperture.height / 2.
-            min_x = min(self.start[0], self.end[0]) - width_2
-            max_x = max(self.start[0], self.end[0]) + width_2
-            min_y = min(self.start[1], self.end[1]) - height_2
-            max_y = max(self.start[1], self.end[1]) + height_2
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # Not memoized, the aperture may change independently of the line
+        width_2, height_2 = _aperture_extent(self.aperture)
+        ((min_x, max_x), (min_y, max_y)) = self.bounding_box_no_aperture
+        return ((min_x - width_2, max_x + width_2),
+                (min_y - height_2, max_y + height_2))
 
     @property
     def bounding_box_no_aperture(self):
@@ -410,58 +410,11 @@ class Arc(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            two_pi = 2 * math.pi
-            theta0 = (self.start_angle + two_pi) % two_pi
-            theta1 = (self.end_angle + two_pi) % two_pi
-            points = [self.start, self.end]
-            if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
-                if self.direction == 'counterclockwise':
-                    # Passes through 0 degrees
-                    if theta0 >= theta1:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta0 <= math.pi / 2.) and ((theta1 >= math.pi / 2.) or (theta1 <= theta0)))
-                        or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
-                        or ((theta1 > math.pi) and (theta1 <= theta0))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (theta0 <= math.pi * 1.5 and (theta1 >= math.pi * 1.5 or theta1 <= theta0)
-                        or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-                else:
-                    # Passes through 0 degrees
-                    if theta1 >= theta0:
-                        points.append((self.center[0] + self.radius, self.center[1]))
-                    # Passes through 90 degrees
-                    if (((theta1 <= math.pi / 2.) and (theta0 >= math.pi / 2. or theta0 <= theta1))
-                        or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] + self.radius))
-                    # Passes through 180 degrees
-                    if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
-                        or ((theta0 > math.pi) and (theta0 <= theta1))):
-                        points.append((self.center[0] - self.radius, self.center[1]))
-                    # Passes through 270 degrees
-                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
-                        or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
-                        points.append((self.center[0], self.center[1] - self.radius))
-            x, y = zip(*points)
-            if hasattr(self.aperture, 'radius'):
-                min_x = min(x) - self.aperture.radius
-                max_x = max(x) + self.aperture.radius
-                min_y = min(y) - self.aperture.radius
-                max_y = max(y) + self.aperture.radius
-            else:
-                min_x = min(x) - self.aperture.width
-                max_x = max(x) + self.aperture.width
-                min_y = min(y) - self.aperture.height
-                max_y = max(y) + self.aperture.height
-
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # Not memoized, the aperture may change independently of the arc
+        width_2, height_2 = _aperture_extent(self.aperture)
+        ((min_x, max_x), (min_y, max_y)) = self.bounding_box_no_aperture
+        return ((min_x - width_2, max_x + width_2),
+                (min_y - height_2, max_y + height_2))
 
     @property
     def bounding_box_no_aperture(self):
-- 
2.43.0


From ba47967ba12d12f64654cad8d2e02fd604f17b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 027/117] fix: boxes of regions and outlines follow their
 segments

---
 gerber/primitives.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 958f3f4..e55bf91 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1333,16 +1333,15 @@ class Outline(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # Not memoized, the segments may change independently
+        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
@@ -1396,16 +1395,15 @@ class Region(Primitive):
 
     @property
     def bounding_box(self):
-        if self._bounding_box is None:
-            xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
-            minx, maxx = zip(*xlims)
-            miny, maxy = zip(*ylims)
-            min_x = min(minx)
-            max_x = max(maxx)
-            min_y = min(miny)
-            max_y = max(maxy)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
+        # Not memoized, the segments may change independently
+        xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
-- 
2.43.0


From aa09b83f9cbc0af7084a300ef4d32a5dad8cb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 028/117] fix: vertices and width of outlines

---
 gerber/primitives.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e55bf91..56f108e 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1350,19 +1350,11 @@ class Outline(Primitive):
 
     @property
     def vertices(self):
-        if self._vertices is None:
-            theta = math.radians(360/self.sides)
-            vertices = [(self.position[0] + (math.cos(theta * side) * self.radius),
-                         self.position[1] + (math.sin(theta * side) * self.radius))
-                        for side in range(self.sides)]
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in vertices]
-        return self._vertices
+        return [segment.start for segment in self.primitives]
 
     @property
     def width(self):
-        bounding_box = self.bounding_box()
+        bounding_box = self.bounding_box
         return bounding_box[0][1] - bounding_box[0][0]
 
     def equivalent(self, other, offset):
-- 
2.43.0


From e8e9055384a3d9132b761d940d06a9d6eb44baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 029/117] fix: rotate vertices about the centre of the shape

---
 gerber/primitives.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 56f108e..86584ed 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -707,9 +707,8 @@ class Rectangle(Primitive):
             ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
             ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
             lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in [ll, ul, ur, lr]]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [ll, ul, ur, lr]]
         return self._vertices
 
     @property
@@ -804,9 +803,8 @@ class Diamond(Primitive):
             right = ((self.position[0] + delta_w), self.position[1])
             bottom = (self.position[0], (self.position[1] - delta_h))
             left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [(((x * self._cos_theta) - (y * self._sin_theta)),
-                               ((x * self._sin_theta) + (y * self._cos_theta)))
-                              for x, y in [top, right, bottom, left]]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [top, right, bottom, left]]
         return self._vertices
 
     @property
@@ -923,9 +921,8 @@ class ChamferRectangle(Primitive):
                         vertices.append((x, y + self.chamfer))
                 else:
                     vertices.append(corner)
-            self._vertices = [((x * self._cos_theta - y * self._sin_theta),
-                               (x * self._sin_theta + y * self._cos_theta))
-                              for x, y in vertices]
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in vertices]
         return self._vertices
 
     @property
-- 
2.43.0


From bdf1bcf324ddc8b1c838a1c0994fa27f579d7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 030/117] fix: list chamfered corners in the order of the
 outline

---
 gerber/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 86584ed..4d75445 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -908,14 +908,14 @@ class ChamferRectangle(Primitive):
                 x, y = corner
                 if chamfered:
                     if idx == 0:
-                        vertices.append((x - self.chamfer, y))
                         vertices.append((x, y - self.chamfer))
+                        vertices.append((x - self.chamfer, y))
                     elif idx == 1:
                         vertices.append((x + self.chamfer, y))
                         vertices.append((x, y - self.chamfer))
                     elif idx == 2:
-                        vertices.append((x + self.chamfer, y))
                         vertices.append((x, y + self.chamfer))
+                        vertices.append((x + self.chamfer, y))
                     elif idx == 3:
                         vertices.append((x - self.chamfer, y))
                         vertices.append((x, y + self.chamfer))
-- 
2.43.0


From 4b77b5396846418b4682400491fc29c821e2d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 031/117] fix: vertices of lines drawn with polygon apertures
 and after aperture changes

---
 gerber/primitives.py | 55 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 4d75445..de630ad 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -270,31 +270,36 @@ class Line(Primitive):
 
     @property
     def vertices(self):
-        if self._vertices is None:
-            start = self.start
-            end = self.end
-            if isinstance(self.aperture, Rectangle):
-                width = self.aperture.width
-                height = self.aperture.height
-
-                # Find all the corners of the start and end position
-                start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
-                start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
-                start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
-                start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
-                end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
-                end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
-                end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
-                end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
-
-                # The line is defined by the convex hull of the points
-                self._vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
-            elif isinstance(self.aperture, Polygon):
-                points = [map(add, point, vertex)
-                          for vertex in self.aperture.vertices
-                          for point in (start, end)]
-                self._vertices = convex_hull(points)
-        return self._vertices
+        # Not memoized, the aperture may change independently of the line
+        vertices = None
+        start = self.start
+        end = self.end
+        if isinstance(self.aperture, Rectangle):
+            width = self.aperture.width
+            height = self.aperture.height
+
+            # Find all the corners of the start and end position
+            start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
+            start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
+            start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
+            start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
+            end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
+            end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
+            end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
+            end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
+
+            # The line is defined by the convex hull of the points
+            vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
+        elif isinstance(self.aperture, Polygon):
+            radius = self.aperture.radius
+            sides = self.aperture.sides
+            points = [rotate_point((point[0] + radius, point[1]),
+                                   self.aperture.rotation + i * 360.0 / sides,
+                                   point)
+                      for i in range(sides)
+                      for point in (start, end)]
+            vertices = convex_hull(points)
+        return vertices
 
     def offset(self, x_offset=0, y_offset=0):
         self._changed()
-- 
2.43.0


From 8f40f5276635d6ad8ce26649add0664065a0ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 032/117] fix: hulls of repeated points and of segments

---
 gerber/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 94f09b8..f5fc660 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -456,5 +456,12 @@ def _findhull(idxp, a_i, b_i, points):
 
 
 def convex_hull(points):
+    # duplicates would be taken for collinear points
+    points = sorted(set(map(tuple, points)))
+    if len(points) == 1:
+        return points
+    if len(points) == 2 or points[0][0] == points[-1][0]:
+        # a segment
+        return [points[0], points[-1]]
     vertices = ConvexHull_qh(points)
     return [points[idx] for idx in vertices]
-- 
2.43.0


From 8e7e10e081c4e40b05f654acc1f7c73db68cd791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 033/117] fix: read hole sizes from Allegro comments

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 5ab062a..002aa76 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -474,7 +474,7 @@ class ExcellonParser(object):
                 # Parse this as a hole definition
                 tools = ExcellonToolDefinitionParser(self._settings()).parse_raw(comment_stmt.comment)
                 if len(tools) == 1:
-                    tool = tools[tools.keys()[0]]
+                    tool = list(tools.values())[0]
                     self._add_comment_tool(tool)
 
         elif line[:3] == 'M48':
-- 
2.43.0


From c401ab4816c3055f0c6713261bf1b62c7a7e344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 034/117] fix: count rout continuation segments and repeat
 holes with the default tool

---
 gerber/excellon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 002aa76..9b7b138 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -674,6 +674,8 @@ class ExcellonParser(object):
         elif line[0] == 'R' and self.state != 'HEADER':
             stmt = RepeatHoleStmt.from_excellon(line, self._settings())
             self.statements.append(stmt)
+            if not self.active_tool:
+                self.active_tool = self._get_tool(1)
             for i in range(stmt.count):
                 self.pos[0] += stmt.xdelta if stmt.xdelta is not None else 0
                 self.pos[1] += stmt.ydelta if stmt.ydelta is not None else 0
-- 
2.43.0


From 07a3409a2a1b89b2cb212c7f468fe93d493ff789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 035/117] fix: slots with modal or incremental coordinates

---
 gerber/excellon.py            | 32 ++++++++++++++++----------------
 gerber/excellon_statements.py |  9 +++++----
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 9b7b138..706ff59 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -686,29 +686,20 @@ class ExcellonParser(object):
             if 'G85' in line:
                 stmt = SlotStmt.from_excellon(line, self._settings())
 
-                # I don't know if this is actually correct, but it makes sense
-                # that this is where the tool would end
-                x = stmt.x_end
-                y = stmt.y_end
-
                 self.statements.append(stmt)
 
-                if self.notation == 'absolute':
-                    if x is not None:
-                        self.pos[0] = x
-                    if y is not None:
-                        self.pos[1] = y
-                else:
-                    if x is not None:
-                        self.pos[0] += x
-                    if y is not None:
-                        self.pos[1] += y
+                # The slot starts at the first coordinate, which is modal,
+                # and the tool ends up at the second one
+                start = self._moved(stmt.x_start, stmt.y_start)
+                self.pos = list(start)
+                end = self._moved(stmt.x_end, stmt.y_end)
+                self.pos = list(end)
 
                 if self.state == 'DRILL' or self.state == 'HEADER':
                     if not self.active_tool:
                         self.active_tool = self._get_tool(1)
 
-                    self.hits.append(DrillSlot(self.active_tool, (stmt.x_start, stmt.y_start), (stmt.x_end, stmt.y_end), DrillSlot.TYPE_G85))
+                    self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_G85))
                     self.active_tool._hit()
             else:
                 stmt = CoordinateStmt.from_excellon(line, self._settings())
@@ -735,6 +726,7 @@ class ExcellonParser(object):
                         self.active_tool = self._get_tool(1)
 
                     self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
+                    self.active_tool._hit()
 
                 elif self.state == 'DRILL' or self.state == 'HEADER':
                     # Yes, drills in the header doesn't follow the specification, but it there are many
@@ -748,6 +740,14 @@ class ExcellonParser(object):
         else:
             self.statements.append(UnknownStmt.from_excellon(line))
 
+    def _moved(self, x, y):
+        """ The position reached from the current one by a coordinate
+        """
+        if self.notation == 'absolute':
+            return (self.pos[0] if x is None else x,
+                    self.pos[1] if y is None else y)
+        return (self.pos[0] + (x or 0), self.pos[1] + (y or 0))
+
     def _settings(self):
         return FileSettings(units=self.units, format=self.format,
                             zeros=self.zeros, notation=self.notation)
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 2c50ef9..7640db4 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -861,10 +861,11 @@ class SlotStmt(ExcellonStatement):
         (x_end_coord, y_end_coord) = SlotStmt.parse_sub_coords(sub_coords[1], settings)
 
         # Some files seem to specify only one of the coordinates
-        if x_end_coord == None:
-            x_end_coord = x_start_coord
-        if y_end_coord == None:
-            y_end_coord = y_start_coord
+        if settings.notation == 'absolute':
+            if x_end_coord == None:
+                x_end_coord = x_start_coord
+            if y_end_coord == None:
+                y_end_coord = y_start_coord
 
         c = cls(x_start_coord, y_start_coord, x_end_coord, y_end_coord, **kwargs)
         c.units = settings.units
-- 
2.43.0


From 7f1c6166f0937ff99af818d4e9805c9b95e3689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 036/117] fix: convert the hits of a drill file along with its
 tools

---
 gerber/excellon.py | 76 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 706ff59..e629a8e 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -84,6 +84,25 @@ def loads(data, filename=None, settings=None, tools=None):
     return ExcellonParser(settings, tools).parse_raw(data, filename)
 
 
+def _tool_units(tool):
+    settings = getattr(tool, 'settings', None)
+    return settings.units if settings is not None else None
+
+
+def _in_units_of(tool, units, point):
+    """ Convert a point in the given units to the units of a tool
+
+    The tools of a file are shared by many hits, and converting a tool converts
+    what is drilled with it.
+    """
+    new_units = _tool_units(tool)
+    if units == 'inch' and new_units == 'metric':
+        point = tuple(map(metric, point))
+    elif units == 'metric' and new_units == 'inch':
+        point = tuple(map(inch, point))
+    return point, new_units
+
+
 class DrillHit(object):
     """Drill feature that is a single drill hole.
 
@@ -99,15 +118,24 @@ class DrillHit(object):
         self.tool = tool
         self.position = position
 
+    @property
+    def position(self):
+        self._position, self._units = _in_units_of(self.tool, self._units,
+                                                   self._position)
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._position = value
+        self._units = _tool_units(self.tool)
+
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
+        if _tool_units(self.tool) == 'metric':
             self.tool.to_inch()
-            self.position = tuple(map(inch, self.position))
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
+        if _tool_units(self.tool) == 'inch':
             self.tool.to_metric()
-            self.position = tuple(map(metric, self.position))
 
     @property
     def bounding_box(self):
@@ -140,17 +168,35 @@ class DrillSlot(object):
         self.end = end
         self.slot_type = slot_type
 
+    @property
+    def start(self):
+        self._start, self._start_units = _in_units_of(
+            self.tool, self._start_units, self._start)
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._start = value
+        self._start_units = _tool_units(self.tool)
+
+    @property
+    def end(self):
+        self._end, self._end_units = _in_units_of(
+            self.tool, self._end_units, self._end)
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._end = value
+        self._end_units = _tool_units(self.tool)
+
     def to_inch(self):
-        if self.tool.settings.units == 'metric':
+        if _tool_units(self.tool) == 'metric':
             self.tool.to_inch()
-            self.start = tuple(map(inch, self.start))
-            self.end = tuple(map(inch, self.end))
 
     def to_metric(self):
-        if self.tool.settings.units == 'inch':
+        if _tool_units(self.tool) == 'inch':
             self.tool.to_metric()
-            self.start = tuple(map(metric, self.start))
-            self.end = tuple(map(metric, self.end))
 
     @property
     def bounding_box(self):
@@ -288,10 +334,8 @@ class ExcellonFile(CamFile):
                 statement.to_inch()
             for tool in iter(self.tools.values()):
                 tool.to_inch()
-            #for primitive in self.primitives:
-            #    primitive.to_inch()
-            #for hit in self.hits:
-            #    hit.to_inch()
+            for hit in self.hits:
+                hit.to_inch()
             self.units = 'inch'
 
     def to_metric(self):
@@ -302,10 +346,6 @@ class ExcellonFile(CamFile):
                 statement.to_metric()
             for tool in iter(self.tools.values()):
                 tool.to_metric()
-            #for primitive in self.primitives:
-            #    print("Converting to metric: {}".format(primitive))
-            #    primitive.to_metric()
-            #    print(primitive)
             for hit in self.hits:
                 hit.to_metric()
             self.units = 'metric'
-- 
2.43.0


From 276d51434bb8e9e840f4722df4813e0d9d9cad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 037/117] fix: data mode and units lines of the drill report

---
 gerber/excellon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e629a8e..65adede 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -290,10 +290,10 @@ class ExcellonFile(CamFile):
         if self.filename is not None:
             rprt += 'NC Drill File: %s\n\n' % self.filename
         rprt += 'Drill File Info:\n----------------\n'
-        rprt += ('  Data Mode         %s\n' % 'Absolute'
-                 if self.settings.notation == 'absolute' else 'Incremental')
-        rprt += ('  Units             %s\n' % 'Inches'
-                 if self.settings.units == 'inch' else 'Millimeters')
+        rprt += '  Data Mode         %s\n' % (
+            'Absolute' if self.settings.notation == 'absolute' else 'Incremental')
+        rprt += '  Units             %s\n' % (
+            'Inches' if self.settings.units == 'inch' else 'Millimeters')
         rprt += '\nTool List:\n----------\n\n'
         rprt += '  Code      Size     Hits    Path Length\n'
         rprt += '  --------------------------------------\n'
-- 
2.43.0


From 634a68fabb841cd4dd3473ec1e052c85c1609634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 038/117] fix: path lengths with slots and of tools without
 hits

---
 gerber/excellon.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 65adede..4c88e72 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -361,7 +361,7 @@ class ExcellonFile(CamFile):
     def path_length(self, tool_number=None):
         """ Return the path length for a given tool
         """
-        lengths = {}
+        lengths = dict((tool.number, 0.0) for tool in self.tools.values())
         positions = {}
         for hit in self.hits:
             tool = hit.tool
@@ -369,9 +369,12 @@ class ExcellonFile(CamFile):
             positions[num] = ((0, 0) if positions.get(num) is None
                               else positions[num])
             lengths[num] = 0.0 if lengths.get(num) is None else lengths[num]
-            lengths[num] = lengths[
-                num] + math.hypot(*tuple(map(operator.sub, positions[num], hit.position)))
-            positions[num] = hit.position
+            path = ((hit.start, hit.end) if isinstance(hit, DrillSlot)
+                    else (hit.position,))
+            for position in path:
+                lengths[num] = lengths[
+                    num] + math.hypot(*tuple(map(operator.sub, positions[num], position)))
+                positions[num] = position
 
         if tool_number is None:
             return lengths
-- 
2.43.0


From 92980f446df25d3946f55181134085cb2ff9d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 039/117] fix: write tool data that the coordinate format
 cannot hold

---
 gerber/excellon_statements.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 7640db4..0247f6f 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -219,22 +219,30 @@ class ExcellonTool(ExcellonStatement):
         zs = settings.zero_suppression
         stmt = 'T%02d' % self.number
         if self.retract_rate is not None:
-            stmt += 'B%s' % write_gerber_value(self.retract_rate, fmt, zs)
+            stmt += 'B%s' % self._number(self.retract_rate, fmt, zs)
         if self.feed_rate is not None:
-            stmt += 'F%s' % write_gerber_value(self.feed_rate, fmt, zs)
+            stmt += 'F%s' % self._number(self.feed_rate, fmt, zs)
         if self.max_hit_count is not None:
-            stmt += 'H%s' % write_gerber_value(self.max_hit_count, fmt, zs)
+            stmt += 'H%s' % self._number(self.max_hit_count, fmt, zs)
         if self.rpm is not None:
-            if self.rpm < 100000.:
-                stmt += 'S%s' % write_gerber_value(self.rpm / 1000., fmt, zs)
-            else:
-                stmt += 'S%g' % (self.rpm / 1000.)
+            stmt += 'S%s' % self._number(self.rpm / 1000., fmt, zs)
         if self.diameter is not None:
-            stmt += 'C%s' % decimal_string(self.diameter, fmt[1], True)
+            # There is a decimal point, so the digits of the format are no limit
+            diameter = decimal_string(self.diameter, 10)
+            stmt += 'C%s' % diameter.ljust(diameter.index('.') + 1 + fmt[1], '0')
         if self.depth_offset is not None:
-            stmt += 'Z%s' % write_gerber_value(self.depth_offset, fmt, zs)
+            stmt += 'Z%s' % self._number(self.depth_offset, fmt, zs)
         return stmt
 
+    @staticmethod
+    def _number(value, fmt, zs):
+        """ Digits in the given format, or a decimal number if these do not suffice
+        """
+        digits = write_gerber_value(value, fmt, zs)
+        if abs(parse_gerber_value(digits, fmt, zs) - value) < 1e-9 * max(1, abs(value)):
+            return digits
+        return decimal_string(value, 10)
+
     def to_inch(self):
         if self.settings.units != 'inch':
             self.settings.units = 'inch'
-- 
2.43.0


From d3fe933b04ec13f9d606cd75df9f3bd390615302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 040/117] fix: keep the number format of unit statements

---
 gerber/excellon_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 0247f6f..af6f91a 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -687,10 +687,11 @@ class UnitStmt(ExcellonStatement):
         self.format = format
 
     def to_excellon(self, settings=None):
-        # TODO This won't export the invalid format statement if it exists
         stmt = '%s,%s' % ('INCH' if self.units == 'inch' else 'METRIC',
                           'LZ' if self.zeros == 'leading'
                           else 'TZ')
+        if self.format is not None:
+            stmt += ',%s.%s' % ('0' * self.format[0], '0' * self.format[1])
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From fb9a0bcd10599eeb7e578f61e93ea6dd091b3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 041/117] fix: end of program coordinates: signs and format

---
 gerber/excellon_statements.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index af6f91a..237d975 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -609,8 +609,8 @@ class EndOfProgramStmt(ExcellonStatement):
 
     @classmethod
     def from_excellon(cls, line, settings, **kwargs):
-        match = re.compile(r'M30X?(?P<x>\d*\.?\d*)?Y?'
-                           '(?P<y>\d*\.?\d*)?').match(line)
+        match = re.compile(r'M30X?(?P<x>[+\-]?\d*\.?\d*)?Y?'
+                           r'(?P<y>[+\-]?\d*\.?\d*)?').match(line)
         stmt = match.groupdict()
         x = (parse_gerber_value(stmt['x'], settings.format,
                                 settings.zero_suppression)
@@ -629,10 +629,12 @@ class EndOfProgramStmt(ExcellonStatement):
 
     def to_excellon(self, settings=None):
         stmt = 'M30'
+        fmt = ((settings.format, settings.zero_suppression)
+               if settings is not None else ())
         if self.x is not None:
-            stmt += 'X%s' % write_gerber_value(self.x)
+            stmt += 'X%s' % write_gerber_value(self.x, *fmt)
         if self.y is not None:
-            stmt += 'Y%s' % write_gerber_value(self.y)
+            stmt += 'Y%s' % write_gerber_value(self.y, *fmt)
         return stmt
 
     def to_inch(self):
-- 
2.43.0


From e2755f1e73f8ebef3850ddaf7abe030ffd5a678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 042/117] fix: write slots and files that start without a tool
 selection

---
 gerber/excellon.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 4c88e72..489d04b 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -310,21 +310,47 @@ class ExcellonFile(CamFile):
         with open(filename, 'w') as f:
 
             # Copy the header verbatim
-            for statement in self.statements:
-                if not isinstance(statement, ToolSelectionStmt):
-                    f.write(statement.to_excellon(self.settings) + '\n')
-                else:
-                    break
+            for statement in self._header():
+                f.write(statement.to_excellon(self.settings) + '\n')
 
             # Write out coordinates for drill hits by tool
             for tool in iter(self.tools.values()):
                 f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\n')
                 for hit in self.hits:
                     if hit.tool.number == tool.number:
-                        f.write(CoordinateStmt(
-                            *hit.position).to_excellon(self.settings) + '\n')
+                        for statement in self._hit_statements(hit):
+                            f.write(statement.to_excellon(self.settings) + '\n')
             f.write(EndOfProgramStmt().to_excellon() + '\n')
 
+    def _header(self):
+        """ Statements that precede the first machining command
+        """
+        header = []
+        for statement in self.statements:
+            if isinstance(statement, (ToolSelectionStmt, NextToolSelectionStmt,
+                                      CoordinateStmt, SlotStmt, RepeatHoleStmt,
+                                      RouteModeStmt, ZAxisRoutPositionStmt,
+                                      EndOfProgramStmt)):
+                break
+            if isinstance(statement, IncrementalModeStmt):
+                # Positions are always written in absolute coordinates
+                statement = IncrementalModeStmt('off')
+            header.append(statement)
+        return header
+
+    def _hit_statements(self, hit):
+        """ Statements that drill a hole or a slot
+        """
+        if isinstance(hit, DrillHit):
+            return [CoordinateStmt(*hit.position)]
+        if hit.slot_type == DrillSlot.TYPE_G85:
+            return [SlotStmt.from_points(hit.start, hit.end)]
+        return [CoordinateStmt.from_point(hit.start, mode='ROUT'),
+                ZAxisRoutPositionStmt(),
+                CoordinateStmt.from_point(hit.end, mode='LINEAR'),
+                RetractWithClampingStmt(),
+                DrillModeStmt()]
+
     def to_inch(self):
         """
         Convert units to inches
-- 
2.43.0


From 60bbc6cd59fd5ca17c6526f8df71b1de92b9be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 043/117] fix: round tool data when writing

---
 gerber/excellon_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 237d975..4f66e27 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -228,7 +228,7 @@ class ExcellonTool(ExcellonStatement):
             stmt += 'S%s' % self._number(self.rpm / 1000., fmt, zs)
         if self.diameter is not None:
             # There is a decimal point, so the digits of the format are no limit
-            diameter = decimal_string(self.diameter, 10)
+            diameter = ('%.9f' % self.diameter).rstrip('0')
             stmt += 'C%s' % diameter.ljust(diameter.index('.') + 1 + fmt[1], '0')
         if self.depth_offset is not None:
             stmt += 'Z%s' % self._number(self.depth_offset, fmt, zs)
@@ -241,7 +241,7 @@ class ExcellonTool(ExcellonStatement):
         digits = write_gerber_value(value, fmt, zs)
         if abs(parse_gerber_value(digits, fmt, zs) - value) < 1e-9 * max(1, abs(value)):
             return digits
-        return decimal_string(value, 10)
+        return ('%.9f' % value).rstrip('0')
 
     def to_inch(self):
         if self.settings.units != 'inch':
-- 
2.43.0


From 9a8f2c5c498c6b6d2ceda9d26943e85ccd85fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 044/117] fix: write definitions of tools that no statement
 defines

---
 gerber/excellon.py | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index 489d04b..ac5302b 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -336,6 +336,11 @@ class ExcellonFile(CamFile):
                 # Positions are always written in absolute coordinates
                 statement = IncrementalModeStmt('off')
             header.append(statement)
+        # Tools may also come from comments, another file or a tool table
+        end = _header_end(header)
+        if end is not None:
+            header[end:end] = [tool for tool in self.tools.values()
+                               if not any(tool is s for s in header)]
         return header
 
     def _hit_statements(self, hit):
@@ -728,15 +733,15 @@ class ExcellonParser(object):
                         diameter = metric((16 + 8 * stmt.tool) / 1000.0)
 
                     tool = ExcellonTool(
-                        self._settings(), number=stmt.tool, diameter=diameter)
+                        self._settings(), number=stmt.tool, diameter=diameter,
+                        plated=self.plated)
                     self.tools[tool.number] = tool
 
-                    # FIXME: need to add this tool definition inside header to
-                    # make sure it is properly written
-                    for i, s in enumerate(self.statements):
-                        if isinstance(s, ToolSelectionStmt) or isinstance(s, ExcellonTool):
-                            self.statements.insert(i, tool)
-                            break
+                    # Add the tool definition inside the header to make sure
+                    # it is properly written
+                    end = _header_end(self.statements)
+                    if end is not None:
+                        self.statements.insert(end, tool)
 
                 self.active_tool = tool
 
@@ -843,7 +848,8 @@ class ExcellonParser(object):
         """
 
         if tool.plated == ExcellonTool.PLATED_UNKNOWN:
-            ext_tool = self.ext_tools.get(tool.number)
+            ext_tool = (self.ext_tools.get(tool.number) or
+                        self.comment_tools.get(tool.number))
 
             if ext_tool:
                 tool.plated = ext_tool.plated
@@ -865,6 +871,25 @@ class ExcellonParser(object):
 
         return tool
 
+def _header_end(statements):
+    """ Index of the statement that ends the header, or None without a header
+    """
+    in_header = False
+    for i, statement in enumerate(statements):
+        if isinstance(statement, HeaderBeginStmt):
+            in_header = True
+        elif isinstance(statement, CommentStmt):
+            in_header = (in_header or 'HEADER:' in statement.comment
+                         or ' Holesize ' in statement.comment)
+        elif isinstance(statement, RewindStopStmt):
+            if in_header:
+                return i
+            in_header = True
+        elif isinstance(statement, HeaderEndStmt) and in_header:
+            return i
+    return None
+
+
 def detect_excellon_format(data=None, filename=None):
     """ Detect excellon file decimal format and zero-suppression settings.
 
-- 
2.43.0


From ff86217b7cb7dcdfbf76e39897f99368e23e5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 045/117] fix: do not share externally defined tools between
 files

---
 gerber/excellon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index ac5302b..cded0b4 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -866,6 +866,8 @@ class ExcellonParser(object):
         if not tool:
             tool = self.ext_tools.get(toolid)
             if tool:
+                # The tool may be used for other files, too
+                tool = ExcellonTool.from_tool(tool)
                 tool.settings = self._settings()
                 self.tools[toolid] = tool
 
-- 
2.43.0


From 6d8147e45febbb349e029a13b9b7450d92d750ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 046/117] fix: offset moves positions only

---
 gerber/rs274x.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 145713c..7836640 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -176,7 +176,12 @@ class GerberFile(CamFile):
 
     def offset(self, x_offset=0,  y_offset=0):
         for statement in self.statements:
-            statement.offset(x_offset, y_offset)
+            # Only positions move. The centre of an arc is relative to its
+            # start, and image offset and scale apply to the whole file.
+            if isinstance(statement, CoordStmt):
+                center = statement.i, statement.j
+                statement.offset(x_offset, y_offset)
+                statement.i, statement.j = center
         for primitive in self.primitives:
             primitive.offset(x_offset, y_offset)
 
-- 
2.43.0


From c54741e7b4dadd984c70b8e5e208bf572e87de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 047/117] fix: hulls of collinear points that are not on a
 vertical line

---
 gerber/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index f5fc660..70bd5eb 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -388,6 +388,9 @@ def _optimize(hull,points):
     toremove=[]
     newhull=hull[:]
     l=len(hull)
+    if l<3:
+        #all points are collinear, the hull is a segment
+        return newhull
     for i in range(l):
         p1=hull[i]
         p2=hull[(i+1)%l]
-- 
2.43.0


From e2c5dc475eda640e98c9a9198121ea8e5c105a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 048/117] fix: convex hulls of nearly collinear points

---
 gerber/utils.py | 143 +++++++-----------------------------------------
 1 file changed, 21 insertions(+), 122 deletions(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index 70bd5eb..5af8892 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -24,7 +24,7 @@ files.
 """
 
 import os
-from math import radians, sin, cos, sqrt, atan2, pi
+from math import radians, sin, cos
 
 MILLIMETERS_PER_INCH = 25.4
 
@@ -344,127 +344,26 @@ def listdir(directory, ignore_hidden=True, ignore_os=True):
         files = [f for f in files if not f in os_files]
     return files
 
-def ConvexHull_qh(points):
-    #a hull must be a planar shape with nonzero area, so there must be at least 3 points
-    if(len(points)<3):
-        raise Exception("not a planar shape")
-    #find points with lowest and highest X coordinates
-    minxp=0;
-    maxxp=0;
-    for i in range(len(points)):
-        if(points[i][0]<points[minxp][0]):
-            minxp=i;
-        if(points[i][0]>points[maxxp][0]):
-            maxxp=i;
-    if minxp==maxxp:
-        #all points are collinear
-        raise Exception("not a planar shape")
-    #separate points into those above and those below the minxp-maxxp line
-    lpoints=[]
-    rpoints=[]
-    #to detemine if point X is on the left or right of dividing line A-B, compare slope of A-B to slope of A-X
-    #slope is (By-Ay)/(Bx-Ax)
-    a=points[minxp]
-    b=points[maxxp]
-    slopeab=atan2(b[1]-a[1],b[0]-a[0])
-    for i in range(len(points)):
-        p=points[i]
-        if i == minxp or i == maxxp:
-            continue
-        slopep=atan2(p[1]-a[1],p[0]-a[0])
-        sdiff=slopep-slopeab
-        if(sdiff<pi):sdiff+=2*pi
-        if(sdiff>pi):sdiff-=2*pi
-        if(sdiff>0):
-            lpoints+=[i]
-        if(sdiff<0):
-            rpoints+=[i]
-    hull=[minxp]+_findhull(rpoints, maxxp, minxp, points)+[maxxp]+_findhull(lpoints, minxp, maxxp, points)
-    hullo=_optimize(hull,points)
-    return hullo
-
-def _optimize(hull,points):
-    #find triplets that are collinear and remove middle point
-    toremove=[]
-    newhull=hull[:]
-    l=len(hull)
-    if l<3:
-        #all points are collinear, the hull is a segment
-        return newhull
-    for i in range(l):
-        p1=hull[i]
-        p2=hull[(i+1)%l]
-        p3=hull[(i+2)%l]
-        #(p1.y-p2.y)*(p1.x-p3.x)==(p1.y-p3.y)*(p1.x-p2.x)
-        if (points[p1][1]-points[p2][1])*(points[p1][0]-points[p3][0])==(points[p1][1]-points[p3][1])*(points[p1][0]-points[p2][0]):
-            toremove+=[p2]
-    for i in toremove:
-        newhull.remove(i)
-    return newhull
-
-def _distance(a, b, x):
-    #find the distance between point x and line a-b
-    return abs((b[1]-a[1])*x[0]-(b[0]-a[0])*x[1]+b[0]*a[1]-a[0]*b[1])/sqrt((b[1]-a[1])**2 + (b[0]-a[0])**2 );
-
-def _findhull(idxp, a_i, b_i, points):
-    #if no points in input, return no points in output
-    if(len(idxp)==0):
-        return [];
-    #find point c furthest away from line a-b
-    farpoint=-1
-    fdist=-1.0;
-    for i in idxp:
-        d=_distance(points[a_i], points[b_i], points[i])
-        if(d>fdist):
-            fdist=d;
-            farpoint=i
-    if(fdist<=0):
-        #none of the points have a positive distance from line, bad things have happened
-        return []
-    #separate points into those inside triangle, those outside triangle left of far point, and those outside triangle right of far point
-    a=points[a_i]
-    b=points[b_i]
-    c=points[farpoint]
-    slopeac=atan2(c[1]-a[1],c[0]-a[0])
-    slopecb=atan2(b[1]-c[1],b[0]-c[0])
-    lpoints=[]
-    rpoints=[]
-    for i in idxp:
-        if i==farpoint:
-            #ignore triangle vertex
-            continue
-        x=points[i]
-        #if point x is left of line a-c it's in left set
-        slopeax=atan2(x[1]-a[1],x[0]-a[0])
-        if slopeac==slopeax:
-            continue
-        sdiff=slopeac-slopeax
-        if(sdiff<-pi):sdiff+=2*pi
-        if(sdiff>pi):sdiff-=2*pi
-        if(sdiff<0):
-            lpoints+=[i]
-        else:
-            #if point x is right of line b-c it's in right set, otherwise it's inside triangle and can be ignored
-            slopecx=atan2(x[1]-c[1],x[0]-c[0])
-            if slopecx==slopecb:
-                continue
-            sdiff=slopecx-slopecb
-            if(sdiff<-pi):sdiff+=2*pi
-            if(sdiff>pi):sdiff-=2*pi
-            if(sdiff>0):
-                rpoints+=[i]
-    #the hull segment between points a and b consists of the hull segment between a and c, the point c, and the hull segment between c and b
-    ret=_findhull(rpoints, farpoint, b_i, points)+[farpoint]+_findhull(lpoints, a_i, farpoint, points)
-    return ret
-
-
 def convex_hull(points):
-    # duplicates would be taken for collinear points
+    # Andrew's monotone chain. Both chains go through the points in order, so
+    # that points which are nearly collinear are never taken for an end.
     points = sorted(set(map(tuple, points)))
-    if len(points) == 1:
+    if len(points) < 3:
         return points
-    if len(points) == 2 or points[0][0] == points[-1][0]:
-        # a segment
-        return [points[0], points[-1]]
-    vertices = ConvexHull_qh(points)
-    return [points[idx] for idx in vertices]
+    lower = _chain(points, 1)
+    upper = _chain(points, -1)
+    return lower + [p for p in upper[-2:0:-1] if p not in lower]
+
+
+def _chain(points, side):
+    chain = []
+    for p in points:
+        while len(chain) > 1 and side * _turn(chain[-2], chain[-1], p) <= 0:
+            chain.pop()
+        chain.append(p)
+    return chain
+
+
+def _turn(a, b, c):
+    # positive if a-b-c turns counterclockwise
+    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
-- 
2.43.0


From f8290a96c4bfbd2c7c6f6ba26b9776042cf41d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 049/117] fix: read the test records of tooling features and
 tooling holes

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 9337a99..cd465cf 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -211,7 +211,7 @@ class IPCNetlistParser(object):
         elif line[0] == '9':
             self.statements.append(IPC356_EndOfFile())
 
-        elif line[0:3] in ('317', '327', '367'):
+        elif line[0:3] in ('317', '327', '337', '347', '367'):
             # Test Record
             record = IPC356_TestRecord.from_line(line, self.settings)
 
-- 
2.43.0


From a956a7fdd139677e59de2f483f797fc888cc7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 050/117] fix: adjacent nets of a netlist

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index cd465cf..eaffd3f 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -112,7 +112,7 @@ class IPCNetlist(CamFile):
             adjacent_nets = set()
             for record in self.adjacency_records:
                 if record.net == net:
-                    adjacent_nets = adjacent_nets.update(record.adjacent_nets)
+                    adjacent_nets.update(record.adjacent_nets)
                 elif net in record.adjacent_nets:
                     adjacent_nets.add(record.net)
             nets.append(IPC356_Net(net, adjacent_nets))
-- 
2.43.0


From 7f774b9c129f9426e8fa9223d10cda272e0f8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 051/117] fix: rotations of netlist records in radians

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index eaffd3f..c14ff86 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -348,7 +348,7 @@ class IPC356_TestRecord(object):
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
-                                           else math.degrees(rot))
+                                           else math.degrees(int(rot)))
 
         if len(line) >= (74 + offset):
             end = 74 + offset
-- 
2.43.0


From 5b5e71f659a237c29c726ef851bab9d32f26a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 052/117] fix: negative coordinates of outlines and conductors

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index c14ff86..ccfb64b 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -25,7 +25,7 @@ from .primitives import TestRecord
 _NNAME = re.compile(r'^NNAME\d+$')
 
 # Board Edge Coordinates
-_COORD = re.compile(r'X?(?P<x>[\d\s]*)?Y?(?P<y>[\d\s]*)?')
+_COORD = re.compile(r'X?(?P<x>[+-]?[\d\s]*)?Y?(?P<y>[+-]?[\d\s]*)?')
 
 _SM_FIELD = {
     '0': 'none',
-- 
2.43.0


From c8f144f5ba743d193d0f3b9a9139fba4cdc696a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 053/117] fix: resolve net name aliases in conductor and
 adjacency records

---
 gerber/ipc356.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index ccfb64b..83d1e37 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -216,20 +216,22 @@ class IPCNetlistParser(object):
             record = IPC356_TestRecord.from_line(line, self.settings)
 
             # Substitute net name variables
-            net = record.net_name
-            if (_NNAME.match(net) and net in self.nnames.keys()):
-                record.net_name = self.nnames[record.net_name]
+            record.net_name = self._net_name(record.net_name)
             self.statements.append(record)
 
         elif line[0:3] == '378':
             # Conductor
-            self.statements.append(
-                IPC356_Conductor.from_line(
-                    line, self.settings))
+            record = IPC356_Conductor.from_line(line, self.settings)
+            record.net_name = self._net_name(record.net_name)
+            self.statements.append(record)
 
         elif line[0:3] == '379':
             # Net Adjacency
-            self.statements.append(IPC356_Adjacency.from_line(line))
+            record = IPC356_Adjacency.from_line(line)
+            record.net = self._net_name(record.net)
+            record.adjacent_nets = [self._net_name(net)
+                                    for net in record.adjacent_nets]
+            self.statements.append(record)
 
         elif line[0:3] == '389':
             # Outline
@@ -237,6 +239,11 @@ class IPCNetlistParser(object):
                 IPC356_Outline.from_line(
                     line, self.settings))
 
+    def _net_name(self, net):
+        if _NNAME.match(net) and net in self.nnames:
+            return self.nnames[net]
+        return net
+
 
 class IPC356_Comment(object):
 
-- 
2.43.0


From d559f7639554d45f3164a6e1f89e7f9b36dd27e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 054/117] fix: records of a component without a pin at negative
 coordinates

---
 gerber/ipc356.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 83d1e37..136eeae 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -301,7 +301,9 @@ class IPC356_TestRecord(object):
         end = len(line) - 1 if len(line) < 18 else 17
         record['net_name'] = line[3:end].strip()
 
-        if len(line) >= 27 and line[26] != '-':
+        # A reference designator too long for its columns shifts the others
+        # (the first dash is that of a coordinate if there is none)
+        if len(line) >= 27 and line[26] not in '- ':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
         end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
-- 
2.43.0


From c8519dabf5b9b612a2c6caa3c5b216b1695a9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 055/117] fix: keep the last character of a netlist record that
 ends in a field

---
 gerber/ipc356.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 136eeae..7bebf61 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -298,7 +298,7 @@ class IPC356_TestRecord(object):
             raise ValueError('Not a valid test record statment')
         record['feature_type'] = feature_types[line[1]]
 
-        end = len(line) - 1 if len(line) < 18 else 17
+        end = 17
         record['net_name'] = line[3:end].strip()
 
         # A reference designator too long for its columns shifts the others
@@ -306,16 +306,16 @@ class IPC356_TestRecord(object):
         if len(line) >= 27 and line[26] not in '- ':
             offset = line[26:].find('-')
             offset = 0 if offset == -1 else offset
-        end = len(line) - 1 if len(line) < (27 + offset) else (26 + offset)
+        end = 26 + offset
         record['id'] = line[20:end].strip()
 
-        end = len(line) - 1 if len(line) < (32 + offset) else (31 + offset)
+        end = 31 + offset
         record['pin'] = (line[27 + offset:end].strip() if line[27 + offset:end].strip() != ''
                          else None)
 
         record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'
         if line[32 + offset] == 'D':
-            end = len(line) - 1 if len(line) < (38 + offset) else (37 + offset)
+            end = 37 + offset
             dia = int(line[33 + offset:end].strip())
             record['hole_diameter'] = (dia * 0.0001 if units == 'inch'
                                        else dia * 0.001)
@@ -323,37 +323,37 @@ class IPC356_TestRecord(object):
             record['plated'] = (line[37 + offset] == 'P')
 
         if len(line) >= (40 + offset):
-            end = len(line) - 1 if len(line) < (42 + offset) else (41 + offset)
+            end = 41 + offset
             record['access'] = access[int(line[39 + offset:end])]
 
         if len(line) >= (43 + offset):
-            end = len(line) - 1 if len(line) < (50 + offset) else (49 + offset)
+            end = 49 + offset
             coord = int(line[42 + offset:end].strip())
             record['x_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (51 + offset):
-            end = len(line) - 1 if len(line) < (58 + offset) else (57 + offset)
+            end = 57 + offset
             coord = int(line[50 + offset:end].strip())
             record['y_coord'] = (coord * 0.0001 if units == 'inch'
                                  else coord * 0.001)
 
         if len(line) >= (59 + offset):
-            end = len(line) - 1 if len(line) < (63 + offset) else (62 + offset)
+            end = 62 + offset
             dim = line[58 + offset:end].strip()
             if dim != '':
                 record['rect_x'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (64 + offset):
-            end = len(line) - 1 if len(line) < (68 + offset) else (67 + offset)
+            end = 67 + offset
             dim = line[63 + offset:end].strip()
             if dim != '':
                 record['rect_y'] = (int(dim) * 0.0001 if units == 'inch'
                                     else int(dim) * 0.001)
 
         if len(line) >= (69 + offset):
-            end = len(line) - 1 if len(line) < (72 + offset) else (71 + offset)
+            end = 71 + offset
             rot = line[68 + offset:end].strip()
             if rot != '':
                 record['rect_rotation'] = (int(rot) if angle == 'degrees'
@@ -365,7 +365,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = len(line) - 1 if len(line) < (80 + offset) else 79 + offset
+            end = 79 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From 8605efe6f32e605de7adb098a24f1d1e57c05c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 056/117] fix: last column of the optional information of
 netlist records

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index 7bebf61..c00b424 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -365,7 +365,7 @@ class IPC356_TestRecord(object):
             record['soldermask_info'] = _SM_FIELD.get(sm_info)
 
         if len(line) >= (76 + offset):
-            end = 79 + offset
+            end = 80 + offset
             record['optional_info'] = line[75 + offset:end]
 
         return cls(**record)
-- 
2.43.0


From 38f968a16124ca732111afbd8e2deaf780f1f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 057/117] fix: top and bottom views of a board without such
 layers

---
 gerber/pcb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/pcb.py b/gerber/pcb.py
index 1d22e74..cc8d7ad 100644
--- a/gerber/pcb.py
+++ b/gerber/pcb.py
@@ -81,7 +81,7 @@ class PCB(object):
                         ('topsilk', 'topmask', 'top')]
         drill_layers = [l for l in self.drill_layers if 'top' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def bottom_layers(self):
@@ -89,7 +89,7 @@ class PCB(object):
                         ('bottomsilk', 'bottommask', 'bottom')]
         drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]
         # Drill layer goes under soldermask for proper rendering of tented vias
-        return [board_layers[0]] + drill_layers + board_layers[1:]
+        return board_layers[:1] + drill_layers + board_layers[1:]
 
     @property
     def drill_layers(self):
-- 
2.43.0


From 0e633bee57bfa3847ea11a283509984f141932ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 058/117] fix: dots in layer names are not wildcards

---
 gerber/layers.py | 590 +++++++++++++++++++++++------------------------
 1 file changed, 295 insertions(+), 295 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 69e1c0d..5c7381a 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -1,295 +1,295 @@
-#! /usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# copyright 2014 Hamilton Kibbe <ham@hamiltonkib.be>
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-
-#     http://www.apache.org/licenses/LICENSE-2.0
-
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-
-import os
-import re
-from collections import namedtuple
-
-from . import common
-from .excellon import ExcellonFile
-from .ipc356 import IPCNetlist
-
-
-Hint = namedtuple('Hint', 'layer ext name regex content')
-
-hints = [
-    Hint(layer='top',
-         ext=['gtl', 'cmp', 'top', ],
-         name=['art01', 'top', 'GTL', 'layer1', 'soldcom', 'comp', 'F.Cu', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottom',
-         ext=['gbl', 'sld', 'bot', 'sol', 'bottom', ],
-         name=['art02', 'bottom', 'bot', 'GBL', 'layer2', 'soldsold', 'B.Cu', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='internal',
-         ext=['in', 'gt1', 'gt2', 'gt3', 'gt4', 'gt5', 'gt6',
-              'g1', 'g2', 'g3', 'g4', 'g5', 'g6', ],
-         name=['art', 'internal', 'pgp', 'pwr', 'gnd', 'ground',
-               'gp1', 'gp2', 'gp3', 'gp4', 'gt5', 'gp6',
-               'In1.Cu', 'In2.Cu', 'In3.Cu', 'In4.Cu',
-               'group3', 'group4', 'group5', 'group6', 'group7', 'group8', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='topsilk',
-         ext=['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk', ],
-         name=['sst01', 'topsilk', 'silk', 'slk', 'sst', 'F.SilkS'],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottomsilk',
-         ext=['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk', ],
-         name=['bsilk', 'ssb', 'botsilk', 'bottomsilk', 'B.SilkS'],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='topmask',
-         ext=['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask', ],
-         name=['sm01', 'cmask', 'tmask', 'mask1', 'maskcom', 'topmask',
-               'mst', 'F.Mask', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottommask',
-         ext=['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask', ],
-         name=['sm', 'bmask', 'mask2', 'masksold', 'botmask', 'bottommask',
-               'msb', 'B.Mask', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='toppaste',
-         ext=['gtp', 'tm', 'toppaste', ],
-         name=['sp01', 'toppaste', 'pst', 'F.Paste'],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottompaste',
-         ext=['gbp', 'bm', 'bottompaste', ],
-         name=['sp02', 'botpaste', 'bottompaste', 'psb', 'B.Paste', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='outline',
-         ext=['gko', 'outline', ],
-         name=['BDR', 'border', 'out', 'outline', 'Edge.Cuts', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='ipc_netlist',
-         ext=['ipc'],
-         name=[],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='drawing',
-         ext=['fab'],
-         name=['assembly drawing', 'assembly', 'fabrication',
-               'fab drawing', 'fab'],
-         regex='',
-         content=[]
-         ),
-]
-
-
-def layer_signatures(layer_class):
-    for hint in hints:
-        if hint.layer == layer_class:
-            return hint.ext + hint.name
-    return []
-
-
-def load_layer(filename):
-    return PCBLayer.from_cam(common.read(filename))
-
-
-def load_layer_data(data, filename=None):
-    return PCBLayer.from_cam(common.loads(data, filename))
-
-
-def guess_layer_class(filename):
-    try:
-        layer = guess_layer_class_by_content(filename)
-        if layer:
-            return layer
-    except:
-        pass
-
-    try:
-        directory, filename = os.path.split(filename)
-        name, ext = os.path.splitext(filename.lower())
-        for hint in hints:
-            if hint.regex:
-                if re.findall(hint.regex, filename, re.IGNORECASE):
-                    return hint.layer
-
-            patterns = [r'^(\w*[.-])*{}([.-]\w*)?$'.format(x) for x in hint.name]
-            if ext[1:] in hint.ext or any(re.findall(p, name, re.IGNORECASE) for p in patterns):
-                return hint.layer
-    except:
-        pass
-    return 'unknown'
-
-
-def guess_layer_class_by_content(filename):
-    try:
-        file = open(filename, 'r')
-        for line in file:
-            for hint in hints:
-                if len(hint.content) > 0:
-                    patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
-                    if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
-                        return hint.layer
-    except:
-        pass
-
-    return False
-
-
-def sort_layers(layers, from_top=True):
-    layer_order = ['outline', 'toppaste', 'topsilk', 'topmask', 'top',
-                   'internal', 'bottom', 'bottommask', 'bottomsilk',
-                   'bottompaste']
-    append_after = ['drill', 'drawing']
-
-    output = []
-    drill_layers = [layer for layer in layers if layer.layer_class == 'drill']
-    internal_layers = list(sorted([layer for layer in layers
-                                   if layer.layer_class == 'internal']))
-
-    for layer_class in layer_order:
-        if layer_class == 'internal':
-            output += internal_layers
-        elif layer_class == 'drill':
-            output += drill_layers
-        else:
-            for layer in layers:
-                if layer.layer_class == layer_class:
-                    output.append(layer)
-    if not from_top:
-        output = list(reversed(output))
-
-    for layer_class in append_after:
-        for layer in layers:
-            if layer.layer_class == layer_class:
-                output.append(layer)
-    return output
-
-
-class PCBLayer(object):
-    """ Base class for PCB Layers
-
-    Parameters
-    ----------
-    source : CAMFile
-        CAMFile representing the layer
-
-
-    Attributes
-    ----------
-    filename : string
-        Source Filename
-
-    """
-    @classmethod
-    def from_cam(cls, camfile):
-        filename = camfile.filename
-        layer_class = guess_layer_class(filename)
-        if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
-            return DrillLayer.from_cam(camfile)
-        elif layer_class == 'internal':
-            return InternalLayer.from_cam(camfile)
-        if isinstance(camfile, IPCNetlist):
-            layer_class = 'ipc_netlist'
-        return cls(filename, layer_class, camfile)
-
-    def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
-        super(PCBLayer, self).__init__(**kwargs)
-        self.filename = filename
-        self.layer_class = layer_class
-        self.cam_source = cam_source
-        self.surface = None
-        self.primitives = cam_source.primitives if cam_source is not None else []
-
-    @property
-    def bounds(self):
-        if self.cam_source is not None:
-            return self.cam_source.bounds
-        else:
-            return None
-
-    def __repr__(self):
-        return '<PCBLayer: {}>'.format(self.layer_class)
-
-
-class DrillLayer(PCBLayer):
-    @classmethod
-    def from_cam(cls, camfile):
-        return cls(camfile.filename, camfile)
-
-    def __init__(self, filename=None, cam_source=None, layers=None, **kwargs):
-        super(DrillLayer, self).__init__(filename, 'drill', cam_source, **kwargs)
-        self.layers = layers if layers is not None else ['top', 'bottom']
-
-
-class InternalLayer(PCBLayer):
-
-    @classmethod
-    def from_cam(cls, camfile):
-        filename = camfile.filename
-        try:
-            order = int(re.search(r'\d+', filename).group())
-        except AttributeError:
-            order = 0
-        return cls(filename, camfile, order)
-
-    def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
-        super(InternalLayer, self).__init__(filename, 'internal', cam_source, **kwargs)
-        self.order = order
-
-    def __eq__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order == other.order)
-
-    def __ne__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order != other.order)
-
-    def __gt__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order > other.order)
-
-    def __lt__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order < other.order)
-
-    def __ge__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order >= other.order)
-
-    def __le__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order <= other.order)
+#! /usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# copyright 2014 Hamilton Kibbe <ham@hamiltonkib.be>
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+
+#     http://www.apache.org/licenses/LICENSE-2.0
+
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import os
+import re
+from collections import namedtuple
+
+from . import common
+from .excellon import ExcellonFile
+from .ipc356 import IPCNetlist
+
+
+Hint = namedtuple('Hint', 'layer ext name regex content')
+
+hints = [
+    Hint(layer='top',
+         ext=['gtl', 'cmp', 'top', ],
+         name=['art01', 'top', 'GTL', 'layer1', 'soldcom', 'comp', 'F.Cu', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottom',
+         ext=['gbl', 'sld', 'bot', 'sol', 'bottom', ],
+         name=['art02', 'bottom', 'bot', 'GBL', 'layer2', 'soldsold', 'B.Cu', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='internal',
+         ext=['in', 'gt1', 'gt2', 'gt3', 'gt4', 'gt5', 'gt6',
+              'g1', 'g2', 'g3', 'g4', 'g5', 'g6', ],
+         name=['art', 'internal', 'pgp', 'pwr', 'gnd', 'ground',
+               'gp1', 'gp2', 'gp3', 'gp4', 'gt5', 'gp6',
+               'In1.Cu', 'In2.Cu', 'In3.Cu', 'In4.Cu',
+               'group3', 'group4', 'group5', 'group6', 'group7', 'group8', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='topsilk',
+         ext=['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk', ],
+         name=['sst01', 'topsilk', 'silk', 'slk', 'sst', 'F.SilkS'],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottomsilk',
+         ext=['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk', ],
+         name=['bsilk', 'ssb', 'botsilk', 'bottomsilk', 'B.SilkS'],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='topmask',
+         ext=['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask', ],
+         name=['sm01', 'cmask', 'tmask', 'mask1', 'maskcom', 'topmask',
+               'mst', 'F.Mask', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottommask',
+         ext=['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask', ],
+         name=['sm', 'bmask', 'mask2', 'masksold', 'botmask', 'bottommask',
+               'msb', 'B.Mask', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='toppaste',
+         ext=['gtp', 'tm', 'toppaste', ],
+         name=['sp01', 'toppaste', 'pst', 'F.Paste'],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottompaste',
+         ext=['gbp', 'bm', 'bottompaste', ],
+         name=['sp02', 'botpaste', 'bottompaste', 'psb', 'B.Paste', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='outline',
+         ext=['gko', 'outline', ],
+         name=['BDR', 'border', 'out', 'outline', 'Edge.Cuts', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='ipc_netlist',
+         ext=['ipc'],
+         name=[],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='drawing',
+         ext=['fab'],
+         name=['assembly drawing', 'assembly', 'fabrication',
+               'fab drawing', 'fab'],
+         regex='',
+         content=[]
+         ),
+]
+
+
+def layer_signatures(layer_class):
+    for hint in hints:
+        if hint.layer == layer_class:
+            return hint.ext + hint.name
+    return []
+
+
+def load_layer(filename):
+    return PCBLayer.from_cam(common.read(filename))
+
+
+def load_layer_data(data, filename=None):
+    return PCBLayer.from_cam(common.loads(data, filename))
+
+
+def guess_layer_class(filename):
+    try:
+        layer = guess_layer_class_by_content(filename)
+        if layer:
+            return layer
+    except:
+        pass
+
+    try:
+        directory, filename = os.path.split(filename)
+        name, ext = os.path.splitext(filename.lower())
+        for hint in hints:
+            if hint.regex:
+                if re.findall(hint.regex, filename, re.IGNORECASE):
+                    return hint.layer
+
+            patterns = [r'^(\w*[.-])*{}([.-]\w*)?$'.format(re.escape(x)) for x in hint.name]
+            if ext[1:] in hint.ext or any(re.findall(p, name, re.IGNORECASE) for p in patterns):
+                return hint.layer
+    except:
+        pass
+    return 'unknown'
+
+
+def guess_layer_class_by_content(filename):
+    try:
+        file = open(filename, 'r')
+        for line in file:
+            for hint in hints:
+                if len(hint.content) > 0:
+                    patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
+                    if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
+                        return hint.layer
+    except:
+        pass
+
+    return False
+
+
+def sort_layers(layers, from_top=True):
+    layer_order = ['outline', 'toppaste', 'topsilk', 'topmask', 'top',
+                   'internal', 'bottom', 'bottommask', 'bottomsilk',
+                   'bottompaste']
+    append_after = ['drill', 'drawing']
+
+    output = []
+    drill_layers = [layer for layer in layers if layer.layer_class == 'drill']
+    internal_layers = list(sorted([layer for layer in layers
+                                   if layer.layer_class == 'internal']))
+
+    for layer_class in layer_order:
+        if layer_class == 'internal':
+            output += internal_layers
+        elif layer_class == 'drill':
+            output += drill_layers
+        else:
+            for layer in layers:
+                if layer.layer_class == layer_class:
+                    output.append(layer)
+    if not from_top:
+        output = list(reversed(output))
+
+    for layer_class in append_after:
+        for layer in layers:
+            if layer.layer_class == layer_class:
+                output.append(layer)
+    return output
+
+
+class PCBLayer(object):
+    """ Base class for PCB Layers
+
+    Parameters
+    ----------
+    source : CAMFile
+        CAMFile representing the layer
+
+
+    Attributes
+    ----------
+    filename : string
+        Source Filename
+
+    """
+    @classmethod
+    def from_cam(cls, camfile):
+        filename = camfile.filename
+        layer_class = guess_layer_class(filename)
+        if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
+            return DrillLayer.from_cam(camfile)
+        elif layer_class == 'internal':
+            return InternalLayer.from_cam(camfile)
+        if isinstance(camfile, IPCNetlist):
+            layer_class = 'ipc_netlist'
+        return cls(filename, layer_class, camfile)
+
+    def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
+        super(PCBLayer, self).__init__(**kwargs)
+        self.filename = filename
+        self.layer_class = layer_class
+        self.cam_source = cam_source
+        self.surface = None
+        self.primitives = cam_source.primitives if cam_source is not None else []
+
+    @property
+    def bounds(self):
+        if self.cam_source is not None:
+            return self.cam_source.bounds
+        else:
+            return None
+
+    def __repr__(self):
+        return '<PCBLayer: {}>'.format(self.layer_class)
+
+
+class DrillLayer(PCBLayer):
+    @classmethod
+    def from_cam(cls, camfile):
+        return cls(camfile.filename, camfile)
+
+    def __init__(self, filename=None, cam_source=None, layers=None, **kwargs):
+        super(DrillLayer, self).__init__(filename, 'drill', cam_source, **kwargs)
+        self.layers = layers if layers is not None else ['top', 'bottom']
+
+
+class InternalLayer(PCBLayer):
+
+    @classmethod
+    def from_cam(cls, camfile):
+        filename = camfile.filename
+        try:
+            order = int(re.search(r'\d+', filename).group())
+        except AttributeError:
+            order = 0
+        return cls(filename, camfile, order)
+
+    def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
+        super(InternalLayer, self).__init__(filename, 'internal', cam_source, **kwargs)
+        self.order = order
+
+    def __eq__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order == other.order)
+
+    def __ne__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order != other.order)
+
+    def __gt__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order > other.order)
+
+    def __lt__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order < other.order)
+
+    def __ge__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order >= other.order)
+
+    def __le__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order <= other.order)
-- 
2.43.0


From 559e53da372ece3680222239b181d6819de5f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 059/117] fix: sort_layers keeps netlists and layers of unknown
 class

---
 gerber/layers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerber/layers.py b/gerber/layers.py
index 5c7381a..a48a93a 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -190,6 +190,9 @@ def sort_layers(layers, from_top=True):
         for layer in layers:
             if layer.layer_class == layer_class:
                 output.append(layer)
+    # Netlists and layers of unknown class
+    output += [layer for layer in layers
+               if layer.layer_class not in layer_order + append_after]
     return output
 
 
-- 
2.43.0


From 1dfff98545fddc3a2a9b916c7342aa5832367c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 060/117] fix: binary files are no design files, not an error
 in decoding

---
 gerber/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerber/common.py b/gerber/common.py
index f496809..8ddf892 100644
--- a/gerber/common.py
+++ b/gerber/common.py
@@ -36,8 +36,11 @@ def read(filename):
         CncFile object representing the file, either GerberFile, ExcellonFile,
         or IPCNetlist. Returns None if file is not of the proper type.
     """
-    with open(filename, 'rU') as f:
-        data = f.read()
+    try:
+        with open(filename, 'rU') as f:
+            data = f.read()
+    except UnicodeDecodeError:
+        raise ParseError('Unable to detect file format')
     return loads(data, filename)
 
 
-- 
2.43.0


From d9f152d70b87d14906f5bb68c026ffb9eb38bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 061/117] fix: number internal layers by their own number

---
 gerber/layers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index a48a93a..3a8ed34 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -257,10 +257,14 @@ class InternalLayer(PCBLayer):
     @classmethod
     def from_cam(cls, camfile):
         filename = camfile.filename
-        try:
-            order = int(re.search(r'\d+', filename).group())
-        except AttributeError:
-            order = 0
+        # The number of the layer is that of its extension or the last one of
+        # its name. Others belong to the directory or to the name of the board.
+        name, ext = os.path.splitext(os.path.basename(filename))
+        if ext[1:].lower() in layer_signatures('internal'):
+            numbers = re.findall(r'\d+', ext)
+        else:
+            numbers = re.findall(r'\d+', name)
+        order = int(numbers[-1]) if numbers else 0
         return cls(filename, camfile, order)
 
     def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
-- 
2.43.0


From 0122046a85b2b71d99df406487020bb42a684a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 062/117] fix: a netlist is a netlist whatever its name

---
 gerber/layers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 3a8ed34..470d2d7 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -215,12 +215,12 @@ class PCBLayer(object):
     def from_cam(cls, camfile):
         filename = camfile.filename
         layer_class = guess_layer_class(filename)
+        if isinstance(camfile, IPCNetlist):
+            layer_class = 'ipc_netlist'
         if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
             return DrillLayer.from_cam(camfile)
         elif layer_class == 'internal':
             return InternalLayer.from_cam(camfile)
-        if isinstance(camfile, IPCNetlist):
-            layer_class = 'ipc_netlist'
         return cls(filename, layer_class, camfile)
 
     def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
-- 
2.43.0


From 646e413b807735b555b0fe5256ecb4c6922911d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 063/117] fix: Gerber files can be copied

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 7836640..0c88e02 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -283,7 +283,7 @@ class GerberParser(object):
         for stmt in self.statements:
             stmt.units = self.settings.units
 
-        return GerberFile(self.statements, self.settings, self.primitives, self.apertures.values(), filename)
+        return GerberFile(self.statements, self.settings, self.primitives, list(self.apertures.values()), filename)
 
     def _split_commands(self, data):
         """
-- 
2.43.0


From 0b1088dd32a3765f6386b0fd37f5d817eb01f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 064/117] fix: the kind of a file is not decided by its
 comments

---
 gerber/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gerber/utils.py b/gerber/utils.py
index 5af8892..fc42c3c 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -24,6 +24,7 @@ files.
 """
 
 import os
+import re
 from math import radians, sin, cos
 
 MILLIMETERS_PER_INCH = 25.4
@@ -220,11 +221,11 @@ def detect_file_format(data):
     format : string
         File format. 'excellon' or 'rs274x' or 'unknown'
     """
-    lines = data.split('\n')
-    for line in lines:
-        if 'M48' in line:
+    for line in data.splitlines():
+        line = line.strip()
+        if line.startswith('M48'):
             return 'excellon'
-        elif '%FS' in line:
+        elif re.search(r'(^|[*%])\s*%FS', line) and not line.startswith(';'):
             return 'rs274x'
         elif ((len(line.split()) >= 2) and
               (line.split()[0] == 'P') and (line.split()[1] == 'JOB')):
-- 
2.43.0


From 6bade5c14e5df674d6868f3e2952e43c304b2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 065/117] fix: nested includes are relative to their own file

---
 gerber/rs274x.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 0c88e02..668d57c 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -395,10 +395,14 @@ class GerberParser(object):
                         # Don't crash on include loop
                         if self._recursion_depth < self.INCLUDE_FILE_RECURSION_LIMIT:
                             self._recursion_depth += 1
-                            with open(os.path.join(os.path.dirname(self.filename), param["filename"]), 'r') as f:
+                            # Names are relative to the including file
+                            parent = self.filename
+                            self.filename = os.path.join(os.path.dirname(parent), param["filename"])
+                            with open(self.filename, 'r') as f:
                                 inc_data = f.read()
                             for stmt in self._parse(self._split_commands(inc_data)):
                                 yield stmt
+                            self.filename = parent
                             self._recursion_depth -= 1
                         else:
                             raise IOError("Include file nesting depth limit exceeded.")
-- 
2.43.0


From 1cfeff3061ce4cf53e0bde3ca09e3a1cf6fb0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 066/117] fix: Excellon text may have any line ends

---
 gerber/excellon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index cded0b4..b9508d6 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -505,7 +505,7 @@ class ExcellonParser(object):
         return self.parse_raw(data, filename)
 
     def parse_raw(self, data, filename=None):
-        for line in StringIO(data):
+        for line in data.splitlines():
             self._parse_line(line.strip())
         for stmt in self.statements:
             stmt.units = self.units
-- 
2.43.0


From 2cc0f8666271a5e16dbd34ca7bd1ba86de8415f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 067/117] fix: contours of regions need no aperture in Gerber
 output

---
 gerber/render/rs274x_backend.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index c7af2ea..5b2b310 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -178,9 +178,11 @@ class Rs274xContext(GerberContext):
         if hasattr(primitive, 'comment'):
             self.body.append(CommentStmt(primitive.comment))
 
-    def _render_line(self, line, color, default_polarity='dark'):
+    def _render_line(self, line, color, default_polarity='dark', contour=False):
 
-        self._select_aperture(line.aperture)
+        # Contours of regions are not drawn with an aperture
+        if not contour:
+            self._select_aperture(line.aperture)
 
         self._render_level_polarity(line, default_polarity)
 
@@ -206,7 +208,7 @@ class Rs274xContext(GerberContext):
         elif func:
             self.body.append(CoordStmt.mode(func))
 
-    def _render_arc(self, arc, color, default_polarity='dark'):
+    def _render_arc(self, arc, color, default_polarity='dark', contour=False):
 
         # Optionally set the quadrant mode if it has changed:
         if arc.quadrant_mode != self._quadrant_mode:
@@ -219,7 +221,8 @@ class Rs274xContext(GerberContext):
             self._quadrant_mode = arc.quadrant_mode
 
         # Select the right aperture if not already selected
-        self._select_aperture(arc.aperture)
+        if not contour:
+            self._select_aperture(arc.aperture)
 
         self._render_level_polarity(arc, default_polarity)
 
@@ -255,9 +258,9 @@ class Rs274xContext(GerberContext):
             # Make programmatically generated primitives within a region with
             # unset level polarity inherit the region's level polarity
             if isinstance(p, Line):
-                self._render_line(p, color, default_polarity=region.level_polarity)
+                self._render_line(p, color, default_polarity=region.level_polarity, contour=True)
             else:
-                self._render_arc(p, color, default_polarity=region.level_polarity)
+                self._render_arc(p, color, default_polarity=region.level_polarity, contour=True)
 
         if self.explicit_region_move_end:
             self.body.append(CoordStmt.move(None, None))
-- 
2.43.0


From bcadb78e76a70374ac83fd33f63c875dfd1f404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 068/117] fix: dots made by draws survive Gerber output

---
 gerber/render/rs274x_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index 5b2b310..b4a8557 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -202,7 +202,10 @@ class Rs274xContext(GerberContext):
         point = self._simplify_point(line.end)
 
         # In some files, we see a lot of duplicated ponts, so omit those
-        if point[0] != None or point[1] != None:
+        # (unless the point was not drawn yet, which makes a dot)
+        drawn = (contour or (isinstance(self.body[-1], CoordStmt) and
+                             self.body[-1].op == CoordStmt.OP_DRAW))
+        if point[0] != None or point[1] != None or not drawn:
             self.body.append(CoordStmt.line(func, self._simplify_point(line.end)))
             self._pos = line.end
         elif func:
-- 
2.43.0


From d6bb659e7332b2d3855979d20fd4e799d36458e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 069/117] fix: macros that differ in exposure or rotation are
 different

---
 gerber/primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index de630ad..b50647d 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1207,7 +1207,8 @@ class Polygon(Primitive):
         """
 
         # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:
+        if (type(self) != type(other) or self.sides != other.sides or
+                self.radius != other.radius or self.rotation != other.rotation):
             return False
 
         equiv_pos = tuple(map(add, other.position, offset))
@@ -1309,6 +1310,8 @@ class AMGroup(Primitive):
 
         # We know they have the same number of primitives, so now check them all
         for i in range(0, len(self.primitives)):
+            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
+                return False
             if not self.primitives[i].equivalent(other.primitives[i], offset):
                 return False
 
-- 
2.43.0


From c437a46e6dda63cf5c0edf5bd0b9a864c25deda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 070/117] fix: close the file a layer class is looked up in

---
 gerber/layers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 470d2d7..86c4a80 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -150,13 +150,13 @@ def guess_layer_class(filename):
 
 def guess_layer_class_by_content(filename):
     try:
-        file = open(filename, 'r')
-        for line in file:
-            for hint in hints:
-                if len(hint.content) > 0:
-                    patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
-                    if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
-                        return hint.layer
+        with open(filename, 'r') as file:
+            for line in file:
+                for hint in hints:
+                    if len(hint.content) > 0:
+                        patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
+                        if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
+                            return hint.layer
     except:
         pass
 
-- 
2.43.0


From 80891ae1a958a244806c9e9ebd4cd097b3572b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 071/117] fix: comments may stand between a rout command and
 its position

---
 gerber/excellon.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b9508d6..b3fe978 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -514,9 +514,10 @@ class ExcellonParser(object):
 
     def _parse_line(self, line):
         # skip empty lines
-        # Prepend previous line's data...
-        line = '{}{}'.format(self._previous_line, line)
-        self._previous_line = ''
+        # Prepend previous line's data... (unless a comment comes in between)
+        if not line.startswith(';'):
+            line = '{}{}'.format(self._previous_line, line)
+            self._previous_line = ''
 
         # Skip empty lines
         if not line.strip():
-- 
2.43.0


From 09b551519c65fa67415ffaa84bc07647fa9946d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 072/117] fix: read parameters in any layout

---
 gerber/rs274x.py | 23 ++++++++++++-----------
 gerber/utils.py  |  6 +++++-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 668d57c..a699560 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -197,25 +197,25 @@ class GerberParser(object):
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,%]*)"
-    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,%]*)"
-    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,%]*)"
-    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,%]*)"
-    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,%]*)".format(name=NAME)
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,*%]*)"
+    AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,*%]*)"
+    AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,*%]*)"
+    AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,*%]*)"
+    AD_MACRO = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>{name})[,]?(?P<modifiers>[^,*%]*)".format(name=NAME)
     AM = r"(?P<param>AM)(?P<name>{name})\*(?P<macro>[^%]*)".format(name=NAME)
     # Include File
-    IF = r"(?P<param>IF)(?P<filename>.*)"
+    IF = r"(?P<param>IF)(?P<filename>[^*%]*)"
 
 
     # begin deprecated
     AS = r"(?P<param>AS)(?P<mode>(AXBY)|(AYBX))"
-    IN = r"(?P<param>IN)(?P<name>.*)"
+    IN = r"(?P<param>IN)(?P<name>[^*%]*)"
     IP = r"(?P<param>IP)(?P<ip>(POS|NEG))"
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>.*)"
-    LN = r"(?P<param>LN)(?P<name>.*)"
+    SF = r"(?P<param>SF)(?P<discarded>[^*%]*)"
+    LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
     # end deprecated
@@ -292,14 +292,15 @@ class GerberParser(object):
 
         length = len(data)
         start = 0
-        in_header = True
+        in_header = False
 
         for cur in range(0, length):
 
             val = data[cur]
 
-            if val == '%' and start == cur:
+            if val == '%' and not in_header and not data[start:cur].strip():
                 in_header = True
+                start = cur
                 continue
 
             if val == '\r' or val == '\n':
diff --git a/gerber/utils.py b/gerber/utils.py
index fc42c3c..800d3af 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -29,6 +29,10 @@ from math import radians, sin, cos
 
 MILLIMETERS_PER_INCH = 25.4
 
+# Format specification, which may share its block with other parameters and
+# have the percent sign on the line before
+GERBER_FORMAT = re.compile(r'(^|[*%])\s*%\s*FS|(^|\*)\s*FS[LTD]?[AI]\w*X\d\dY\d\d')
+
 
 def parse_gerber_value(value, format=(2, 5), zero_suppression='trailing'):
     """ Convert gerber/excellon formatted string to floating-point number
@@ -225,7 +229,7 @@ def detect_file_format(data):
         line = line.strip()
         if line.startswith('M48'):
             return 'excellon'
-        elif re.search(r'(^|[*%])\s*%FS', line) and not line.startswith(';'):
+        elif GERBER_FORMAT.search(line) and not line.startswith(';'):
             return 'rs274x'
         elif ((len(line.split()) >= 2) and
               (line.split()[0] == 'P') and (line.split()[1] == 'JOB')):
-- 
2.43.0


From 534d7cd53c624edd1f5c6f6dd5060d6847b698ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 073/117] fix: macro names may have one letter or begin with a
 C

---
 gerber/rs274x.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index a699560..30a1c2e 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -192,12 +192,12 @@ class GerberParser(object):
     NUMBER = r"[\+-]?\d+"
     DECIMAL = r"[\+-]?\d+([.]?\d+)?"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
-    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]+"
+    NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
     FS = r"(?P<param>FS)(?P<zero>(L|T|D))?(?P<notation>(A|I))[NG0-9]*X(?P<x>[0-7][0-7])Y(?P<y>[0-7][0-7])[DM0-9]*"
     MO = r"(?P<param>MO)(?P<mo>(MM|IN))"
     LP = r"(?P<param>LP)(?P<lp>(D|C))"
-    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)[,]?(?P<modifiers>[^,*%]*)"
+    AD_CIRCLE = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>C)(,(?P<modifiers>[^,*%]*))?"
     AD_RECT = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>R)[,](?P<modifiers>[^,*%]*)"
     AD_OBROUND = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>O)[,](?P<modifiers>[^,*%]*)"
     AD_POLY = r"(?P<param>AD)D(?P<d>\d+)(?P<shape>P)[,](?P<modifiers>[^,*%]*)"
-- 
2.43.0


From 60d99a84671731a8979dfc938ea94ca02f6315ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 074/117] fix: write the no-suppression mode of FS statements

---
 gerber/gerber_statements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index d8b8593..6b34e96 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -98,6 +98,8 @@ class FSParamStmt(ParamStmt):
     """ FS - Gerber Format Specification Statement
     """
 
+    ZEROS = {'leading': 'L', 'none': 'D'}
+
     @classmethod
     def from_settings(cls, settings):
 
@@ -157,11 +159,11 @@ class FSParamStmt(ParamStmt):
 
     def to_gerber(self, settings=None):
         if settings:
-            zero_suppression = 'L' if settings.zero_suppression == 'leading' else 'T'
+            zero_suppression = self.ZEROS.get(settings.zero_suppression, 'T')
             notation = 'A' if settings.notation == 'absolute' else 'I'
             fmt = ''.join(map(str, settings.format))
         else:
-            zero_suppression = 'L' if self.zero_suppression == 'leading' else 'T'
+            zero_suppression = self.ZEROS.get(self.zero_suppression, 'T')
             notation = 'A' if self.notation == 'absolute' else 'I'
             fmt = ''.join(map(str, self.format))
 
-- 
2.43.0


From 771925a3071552299a7389300369931f33d6e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 075/117] fix: image offsets and mirrors of one axis

---
 gerber/gerber_statements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 6b34e96..ad66946 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -677,8 +677,8 @@ class MIParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = int(stmt_dict.get('a', 0))
-        b = int(stmt_dict.get('b', 0))
+        a = int(stmt_dict.get('a') or 0)
+        b = int(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
@@ -725,8 +725,8 @@ class OFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 0))
-        b = float(stmt_dict.get('b', 0))
+        a = float(stmt_dict.get('a') or 0)
+        b = float(stmt_dict.get('b') or 0)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
-- 
2.43.0


From eec90657294f0b28e9f5dd05af70cbc89a4e64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 076/117] fix: keep image scale factors

---
 gerber/gerber_statements.py |  4 ++--
 gerber/rs274x.py            | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index ad66946..a3fc649 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -799,8 +799,8 @@ class SFParamStmt(ParamStmt):
     @classmethod
     def from_dict(cls, stmt_dict):
         param = stmt_dict.get('param')
-        a = float(stmt_dict.get('a', 1))
-        b = float(stmt_dict.get('b', 1))
+        a = float(stmt_dict.get('a') or 1)
+        b = float(stmt_dict.get('b') or 1)
         return cls(param, a, b)
 
     def __init__(self, param, a, b):
diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 30a1c2e..3c7fe3b 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -158,7 +158,9 @@ class GerberFile(CamFile):
         if self.units != 'inch':
             self.units = 'inch'
             for statement in self.statements:
-                statement.to_inch()
+                # (a scale factor has no units)
+                if not isinstance(statement, SFParamStmt):
+                    statement.to_inch()
             for primitive in self.primitives:
                 primitive.to_inch()
             for aperture in self.apertures:
@@ -168,7 +170,9 @@ class GerberFile(CamFile):
         if self.units != 'metric':
             self.units = 'metric'
             for statement in self.statements:
-                statement.to_metric()
+                # (a scale factor has no units)
+                if not isinstance(statement, SFParamStmt):
+                    statement.to_metric()
             for primitive in self.primitives:
                 primitive.to_metric()
             for aperture in self.apertures:
@@ -214,7 +218,7 @@ class GerberParser(object):
     IR = r"(?P<param>IR)(?P<angle>{number})".format(number=NUMBER)
     MI = r"(?P<param>MI)(A(?P<a>0|1))?(B(?P<b>0|1))?"
     OF = r"(?P<param>OF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?".format(decimal=DECIMAL)
-    SF = r"(?P<param>SF)(?P<discarded>[^*%]*)"
+    SF = r"(?P<param>SF)(A(?P<a>{decimal}))?(B(?P<b>{decimal}))?(?P<discarded>[^*%]*)".format(decimal=DECIMAL)
     LN = r"(?P<param>LN)(?P<name>[^*%]*)"
     DEPRECATED_UNIT = re.compile(r'(?P<mode>G7[01])\*')
     DEPRECATED_FORMAT = re.compile(r'(?P<format>G9[01])\*')
-- 
2.43.0


From 6b3ffec5aa98df0b20cad2d44fd840af342c515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 077/117] fix: no exponents in decimal strings

---
 gerber/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerber/utils.py b/gerber/utils.py
index 800d3af..22976a1 100644
--- a/gerber/utils.py
+++ b/gerber/utils.py
@@ -192,6 +192,8 @@ def decimal_string(value, precision=6, padding=False):
 
     """
     floatstr = '%0.10g' % value
+    if 'e' in floatstr:
+        floatstr = ('%0.15f' % value).rstrip('0').rstrip('.')
     integer = None
     decimal = None
     if '.' in floatstr:
-- 
2.43.0


From e6108f3e38065302e5dd82a3ab78a0abfa72df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 078/117] fix: decimals need no integer digits

---
 gerber/rs274x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 3c7fe3b..9b02692 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -194,7 +194,7 @@ class GerberParser(object):
     """ GerberParser
     """
     NUMBER = r"[\+-]?\d+"
-    DECIMAL = r"[\+-]?\d+([.]?\d+)?"
+    DECIMAL = r"[\+-]?(\d+([.]\d*)?|[.]\d+)"
     STRING = r"[a-zA-Z0-9_+\-/!?<>”’(){}.\|&@# :]+"
     NAME = r"[a-zA-Z_$\.][a-zA-Z_$\.0-9+\-]*"
 
-- 
2.43.0


From 266e066cb5142a24018bce009a672e52f3d01ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 079/117] fix: raster full circles in either direction

---
 gerber/render/cairo_backend.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e1d1408..9059129 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -231,12 +231,8 @@ class GerberCairoContext(GerberContext):
         start = self.scale_point(arc.start)
         end = self.scale_point(arc.end)
         radius = self.scale[0] * arc.radius
-        two_pi = 2 * math.pi
-        angle1 = (arc.start_angle + two_pi) % two_pi
-        angle2 = (arc.end_angle + two_pi) % two_pi
-        if angle1 == angle2 and arc.quadrant_mode != 'single-quadrant':
-            # Make the angles slightly different otherwise Cario will draw nothing
-            angle2 -= 0.000000001
+        angle1 = arc.start_angle
+        sweep = arc.sweep_angle
         if isinstance(arc.aperture, Circle):
             width = arc.aperture.diameter if arc.aperture.diameter != 0 else 0.001
         else:
@@ -252,10 +248,11 @@ class GerberCairoContext(GerberContext):
                 mask.ctx.set_line_cap(cairo.LINE_CAP_ROUND if isinstance(arc.aperture, Circle) else cairo.LINE_CAP_SQUARE)
                 mask.ctx.move_to(*start)  # You actually have to do this...
                 if arc.direction == 'counterclockwise':
-                    mask.ctx.arc(center[0], center[1], radius, angle1, angle2)
+                    mask.ctx.arc(center[0], center[1], radius,
+                                 angle1, angle1 + sweep)
                 else:
                     mask.ctx.arc_negative(center[0], center[1], radius,
-                                          angle1, angle2)
+                                          angle1, angle1 - sweep)
                 mask.ctx.move_to(*end)  # ...lame
                 mask.ctx.stroke()
 
@@ -289,13 +286,13 @@ class GerberCairoContext(GerberContext):
                         center = self.scale_point(prim.center)
                         radius = self.scale[0] * prim.radius
                         angle1 = prim.start_angle
-                        angle2 = prim.end_angle
+                        sweep = prim.sweep_angle
                         if prim.direction == 'counterclockwise':
                             mask.ctx.arc(center[0], center[1], radius,
-                                         angle1, angle2)
+                                         angle1, angle1 + sweep)
                         else:
                             mask.ctx.arc_negative(center[0], center[1], radius,
-                                                  angle1, angle2)
+                                                  angle1, angle1 - sweep)
                 mask.ctx.fill()
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
-- 
2.43.0


From 542b109659a65fc45976a7aaa13f7c30609dc87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 080/117] fix: clear objects repaint inverted layers

---
 gerber/render/cairo_backend.py | 49 +++++++++++-----------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 9059129..0a7c548 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -202,10 +202,7 @@ class GerberCairoContext(GerberContext):
     def _render_line(self, line, color):
         start = self.scale_point(line.start)
         end = self.scale_point(line.end)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and line.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(line))
 
         with self._clip_primitive(line):
             with self._new_mask() as mask:
@@ -238,10 +235,7 @@ class GerberCairoContext(GerberContext):
         else:
             width = max(arc.aperture.width, arc.aperture.height, 0.001)
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and arc.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(arc))
         with self._clip_primitive(arc):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -271,9 +265,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_region(self, region, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert) and region.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(region))
         with self._clip_primitive(region):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -298,10 +290,7 @@ class GerberCairoContext(GerberContext):
 
     def _render_circle(self, circle, color):
         center = self.scale_point(circle.position)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and circle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(circle))
         with self._clip_primitive(circle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -342,10 +331,7 @@ class GerberCairoContext(GerberContext):
         width, height = tuple([abs(coord) for coord in
                                self.scale_point((rectangle.width,
                                                  rectangle.height))])
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and rectangle.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -381,10 +367,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_obround(self, obround, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and obround.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(obround))
         with self._clip_primitive(obround):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
@@ -434,10 +417,7 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_polygon(self, polygon, color):
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if (not self.invert)
-                                 and polygon.level_polarity == 'dark'
-                              else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(polygon))
         with self._clip_primitive(polygon):
             with self._new_mask() as mask:
 
@@ -496,9 +476,7 @@ class GerberCairoContext(GerberContext):
 
         width = slot.diameter
 
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if slot.level_polarity == 'dark' and
-                                 (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(slot))
         with self._clip_primitive(slot):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(width * self.scale[0])
@@ -519,9 +497,7 @@ class GerberCairoContext(GerberContext):
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
-        self.ctx.set_operator(cairo.OPERATOR_OVER
-                              if primitive.level_polarity == 'dark' and
-                              (not self.invert) else cairo.OPERATOR_CLEAR)
+        self.ctx.set_operator(self._get_operator(primitive))
         self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
@@ -609,5 +585,12 @@ class GerberCairoContext(GerberContext):
 
         return Clip(primitive)
 
+    def _get_operator(self, primitive):
+        """ Dark objects paint and clear objects erase, or the other way round
+        on an inverted layer.
+        """
+        dark = primitive.level_polarity == 'dark'
+        return cairo.OPERATOR_OVER if dark != bool(self.invert) else cairo.OPERATOR_CLEAR
+
     def scale_point(self, point):
         return tuple([coord * scale for coord, scale in zip(point, self.scale)])
-- 
2.43.0


From 1c0957a6608bc2ae29fe1c4e3e51e1b32a2d4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 081/117] fix: holes stay open in clear objects

---
 gerber/render/cairo_backend.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 0a7c548..e8edbf8 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -305,10 +305,7 @@ class GerberCairoContext(GerberContext):
                 if (hasattr(circle, 'hole_width') and hasattr(circle, 'hole_height')
                         and circle.hole_width is not None and circle.hole_height is not None
                         and circle.hole_width > 0 and circle.hole_height > 0):
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if circle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((circle.hole_width, circle.hole_height))
                     lower_left = rotate_point(
                         (center[0] - width / 2.0, center[1] - height / 2.0),
@@ -341,19 +338,13 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(rectangle.position)
                 if rectangle.hole_diameter > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
 
                     mask.ctx.arc(center[0], center[1], rectangle.hole_radius * self.scale[0], 0, 2 * math.pi)
                     mask.ctx.fill()
 
                 if rectangle.hole_width > 0 and rectangle.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((rectangle.hole_width, rectangle.hole_height))
                     lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                     lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)
@@ -395,10 +386,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if obround.hole_width > 0 and obround.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if rectangle.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height =self.scale_point((obround.hole_width, obround.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               obround.rotation, center)
@@ -434,10 +422,7 @@ class GerberCairoContext(GerberContext):
                 center = self.scale_point(polygon.position)
                 if polygon.hole_radius > 0:
                     # Render the center clear
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     mask.ctx.set_line_width(0)
                     mask.ctx.arc(center[0],
                                  center[1],
@@ -445,10 +430,7 @@ class GerberCairoContext(GerberContext):
                     mask.ctx.fill()
 
                 if polygon.hole_width > 0 and polygon.hole_height > 0:
-                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR
-                                          if polygon.level_polarity == 'dark'
-                                             and (not self.invert)
-                                          else cairo.OPERATOR_OVER)
+                    mask.ctx.set_operator(cairo.OPERATOR_CLEAR)
                     width, height = self.scale_point((polygon.hole_width, polygon.hole_height))
                     lower_left = rotate_point((center[0] - width / 2.0, center[1] - height / 2.0),
                                               polygon.rotation, center)
-- 
2.43.0


From 56b3c7ea8329d32451b488bde02426b57c129a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 082/117] fix: raster rotated rectangles

---
 gerber/render/cairo_backend.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index e8edbf8..3dbcaf8 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -324,15 +324,14 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_rectangle(self, rectangle, color):
-        lower_left = self.scale_point(rectangle.lower_left)
-        width, height = tuple([abs(coord) for coord in
-                               self.scale_point((rectangle.width,
-                                                 rectangle.height))])
+        vertices = [self.scale_point(vertex) for vertex in rectangle.vertices]
         self.ctx.set_operator(self._get_operator(rectangle))
         with self._clip_primitive(rectangle):
             with self._new_mask() as mask:
                 mask.ctx.set_line_width(0)
-                mask.ctx.rectangle(lower_left[0], lower_left[1], width, height)
+                mask.ctx.move_to(*vertices[-1])
+                for vertex in vertices:
+                    mask.ctx.line_to(*vertex)
                 mask.ctx.fill()
 
                 center = self.scale_point(rectangle.position)
-- 
2.43.0


From 44cc5d40daf9fdf4b594ad1f68e41cd4d9fc0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 083/117] fix: raster macros on their own

---
 gerber/render/cairo_backend.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 3dbcaf8..8b6c70d 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -468,8 +468,23 @@ class GerberCairoContext(GerberContext):
                 self.ctx.mask_surface(mask.surface, self.origin_in_pixels[0])
 
     def _render_amgroup(self, amgroup, color):
+        # Clear elements of a macro only erase other elements of it, so it is
+        # drawn separately
+        layer_ctx, invert = self.ctx, self.invert
+        size_in_pixels = self.scale_point(self.size_in_inch)
+        surface = cairo.SVGSurface(None, size_in_pixels[0], size_in_pixels[1])
+        self.ctx = cairo.Context(surface)
+        self.ctx.set_matrix(self.active_matrix)
+        self.invert = False
         for primitive in amgroup.primitives:
             self.render(primitive)
+        self.ctx, self.invert = layer_ctx, invert
+
+        self.ctx.set_operator(self._get_operator(amgroup))
+        self.ctx.identity_matrix()
+        self.ctx.mask_surface(surface)
+        self.ctx.set_matrix(self.active_matrix)
+        surface.finish()
 
     def _render_test_record(self, primitive, color):
         position = [pos + origin for pos, origin in
-- 
2.43.0


From c0196b22cc914172f958ecd148318f3d5e52b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 084/117] fix: drill files have bounds

---
 gerber/excellon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index b3fe978..dd94e59 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -267,6 +267,10 @@ class ExcellonFile(CamFile):
                 raise ValueError('Unknown hit type')
         return primitives
 
+    @property
+    def bounds(self):
+        return self.bounding_box
+
     @property
     def bounding_box(self):
         xmin = ymin = 100000000000
-- 
2.43.0


From bf24a72c51093ab3686d176829b27bba5cfbbf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 085/117] fix: images of several layers cover them all

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 8b6c70d..334b68e 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -127,7 +127,7 @@ class GerberCairoContext(GerberContext):
         for layer in layers:
             settings = theme.get(layer.layer_class, RenderSettings())
             self.render_layer(layer, settings=settings, bgsettings=bgsettings,
-                              verbose=verbose)
+                              verbose=verbose, bounds=(x_range, y_range))
         self.dump(filename, verbose)
 
     def dump(self, filename=None, verbose=False):
-- 
2.43.0


From 508a019c710a5e97ae33e080e8f0a314f5683ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 086/117] fix: internal layers get the same settings in every
 image

---
 gerber/render/cairo_backend.py |  6 +++++-
 gerber/render/theme.py         | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 334b68e..506baea 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -27,7 +27,7 @@ import copy
 import os
 
 from .render import GerberContext, RenderSettings
-from .theme import THEMES
+from .theme import THEMES, Theme
 from ..primitives import *
 from ..utils import rotate_point
 
@@ -79,6 +79,8 @@ class GerberCairoContext(GerberContext):
     def render_layer(self, layer, filename=None, settings=None, bgsettings=None,
                      verbose=False, bounds=None):
         if settings is None:
+            if self._render_count == 0:
+                THEMES['default'].restart()
             settings = THEMES['default'].get(layer.layer_class, RenderSettings())
         if bgsettings is None:
             bgsettings = THEMES['default'].get('background', RenderSettings())
@@ -121,6 +123,8 @@ class GerberCairoContext(GerberContext):
         self.scale = (scale, scale)
 
         self.clear()
+        if isinstance(theme, Theme):
+            theme.restart()
 
         # Render layers
         bgsettings = theme['background']
diff --git a/gerber/render/theme.py b/gerber/render/theme.py
index 2f558a1..230183a 100644
--- a/gerber/render/theme.py
+++ b/gerber/render/theme.py
@@ -74,8 +74,14 @@ class Theme(object):
         return next(self._internal_gen)
 
     def _internal_gen_func(self):
-        for setting in self._internal:
-            yield setting
+        while self._internal:
+            for setting in self._internal:
+                yield setting
+
+    def restart(self):
+        """ Give the next internal layer the settings of the first one
+        """
+        self._internal_gen = None
 
     def get(self, key, noneval=None):
         val = getattr(self, key, None)
-- 
2.43.0


From 627b5a859e90087182839da7fa7cbcb0c510f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 087/117] fix: mirror only the mirrored layers

---
 gerber/render/cairo_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 506baea..a2f4990 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -23,7 +23,6 @@ except ImportError:
 
 from operator import mul
 import tempfile
-import copy
 import os
 
 from .render import GerberContext, RenderSettings
@@ -505,7 +504,10 @@ class GerberCairoContext(GerberContext):
 
     def new_render_layer(self, color=None, mirror=False):
         size_in_pixels = self.scale_point(self.size_in_inch)
-        matrix = copy.copy(self._xform_matrix)
+        # (a shallow copy of a matrix may share its values)
+        xform = self._xform_matrix
+        matrix = cairo.Matrix(xform.xx, xform.yx, xform.xy, xform.yy,
+                              xform.x0, xform.y0)
         layer = cairo.SVGSurface(None, size_in_pixels[0], size_in_pixels[1])
         ctx = cairo.Context(layer)
 
-- 
2.43.0


From 1051e3e040c147e4e84aadef46764189546e1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 088/117] fix: declared drill formats are used as declared

---
 gerber/excellon.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index dd94e59..f551458 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -25,6 +25,7 @@ This module provides Excellon file classes and parsing utilities
 
 import math
 import operator
+import re
 
 from .cam import CamFile, FileSettings
 from .excellon_statements import *
@@ -532,11 +533,9 @@ class ExcellonParser(object):
             self.statements.append(comment_stmt)
 
             # get format from altium comment
-            if "FILE_FORMAT" in comment_stmt.comment:
-                detected_format = tuple(
-                    [int(x) for x in comment_stmt.comment.split('=')[1].split(":")])
-                if detected_format:
-                    self.format = detected_format
+            detected_format = _declared_format(comment_stmt)
+            if detected_format:
+                self.format = detected_format
 
             if "TYPE=PLATED" in comment_stmt.comment:
                 self.plated = ExcellonTool.PLATED_YES
@@ -897,6 +896,20 @@ def _header_end(statements):
     return None
 
 
+def _declared_format(statement):
+    """ Coordinate format declared by a statement, or None
+    """
+    if isinstance(statement, CommentStmt):
+        match = re.search(r'FILE_FORMAT\s*=\s*(\d+)\s*:\s*(\d+)',
+                          statement.comment)
+        return tuple(map(int, match.groups())) if match else None
+    if isinstance(statement, FormatStmt):
+        return statement.format_tuple
+    if isinstance(statement, UnitStmt):
+        return statement.format
+    return None
+
+
 def detect_excellon_format(data=None, filename=None):
     """ Detect excellon file decimal format and zero-suppression settings.
 
@@ -928,19 +941,18 @@ def detect_excellon_format(data=None, filename=None):
     p = ExcellonParser()
     p.parse_raw(data)
 
-    # Get zero_suppression from a unit statement
-    zero_statements = [stmt.zeros for stmt in p.statements
-                       if isinstance(stmt, UnitStmt)]
+    # Get zero_suppression from the unit statements
+    zero_statements = set(stmt.zeros for stmt in p.statements
+                          if isinstance(stmt, UnitStmt))
 
-    # get format from altium comment
-    format_comment = [stmt.comment for stmt in p.statements
-                      if isinstance(stmt, CommentStmt)
-                      and 'FILE_FORMAT' in stmt.comment]
+    # get format from altium comment, unit or format statement
+    declared_formats = set(_declared_format(stmt) for stmt in p.statements)
+    declared_formats.discard(None)
 
-    detected_format = (tuple([int(val) for val in
-                              format_comment[0].split('=')[1].split(':')])
-                       if len(format_comment) == 1 else None)
-    detected_zeros = zero_statements[0] if len(zero_statements) == 1 else None
+    if len(declared_formats) == 1:
+        detected_format = declared_formats.pop()
+    if len(zero_statements) == 1:
+        detected_zeros = zero_statements.pop()
 
     # Bail out here if possible
     if detected_format is not None and detected_zeros is not None:
-- 
2.43.0


From 1207c66279fcdc95d14f7b550fc5521afa34b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 089/117] fix: detect a format without tool diameters

---
 gerber/excellon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index f551458..e701d87 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -993,6 +993,11 @@ def detect_excellon_format(data=None, filename=None):
     if detected_format is not None and detected_zeros is not None:
         return {'format': detected_format, 'zeros': detected_zeros}
 
+    # Nothing tells the options apart, e.g. without any tool diameters
+    elif not results:
+        return {'format': detected_format or format_options[0],
+                'zeros': detected_zeros or zeros_options[0]}
+
     # Otherwise score each option and pick the best candidate
     else:
         scores = {}
-- 
2.43.0


From c68d5719c2c74644bf9b77c8d3900e05e2fac762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 090/117] fix: drill files can be rendered as Excellon

---
 gerber/excellon.py                |  2 ++
 gerber/render/excellon_backend.py | 12 ++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gerber/excellon.py b/gerber/excellon.py
index e701d87..171e810 100755
--- a/gerber/excellon.py
+++ b/gerber/excellon.py
@@ -266,6 +266,8 @@ class ExcellonFile(CamFile):
                                        units=self.settings.units))
             else:
                 raise ValueError('Unknown hit type')
+            # The tool it is made with, for output as a drill program
+            primitives[-1].hit = hit
         return primitives
 
     @property
diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 765d68c..4e66652 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -101,11 +101,11 @@ class ExcellonContext(GerberContext):
             self._start_drill_mode()
 
         tool = drill.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if tool is not self.cur_tool:
             self.body.append(ToolSelectionStmt(tool.number))
             self.cur_tool = tool
 
@@ -138,11 +138,11 @@ class ExcellonContext(GerberContext):
 
         # Set the tool first, before we might go into drill mode
         tool = slot.hit.tool
-        if not tool in self.handled_tools:
-            self.handled_tools.add(tool)
+        if not tool.number in self.handled_tools:
+            self.handled_tools.add(tool.number)
             self.header.append(ExcellonTool.from_tool(tool))
 
-        if tool != self.cur_tool:
+        if tool is not self.cur_tool:
             self.body.append(ToolSelectionStmt(tool.number))
             self.cur_tool = tool
 
-- 
2.43.0


From ad5e3e2f323be0c094cdf764a8b4484b5674a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 091/117] fix: drill the same point twice

---
 gerber/render/excellon_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/excellon_backend.py b/gerber/render/excellon_backend.py
index 4e66652..6576393 100644
--- a/gerber/render/excellon_backend.py
+++ b/gerber/render/excellon_backend.py
@@ -93,7 +93,9 @@ class ExcellonContext(GerberContext):
         raise ValueError('Invalid Excellon object')
 
     def _simplify_point(self, point):
-        return (point[0] if point[0] != self._pos[0] else None, point[1] if point[1] != self._pos[1] else None)
+        # At least one coordinate is needed to drill at the same point again
+        return (point[0] if point[0] != self._pos[0] or point[1] == self._pos[1] else None,
+                point[1] if point[1] != self._pos[1] else None)
 
     def _render_drill(self, drill, color):
 
-- 
2.43.0


From 4fc39a4ce76b3b48c543975027bce4e42e2471c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 092/117] fix: keep the line ends of layers.py and
 primitives.py

---
 gerber/layers.py     |  604 ++++----
 gerber/primitives.py | 3526 +++++++++++++++++++++---------------------
 2 files changed, 2065 insertions(+), 2065 deletions(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index 86c4a80..f40858d 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -1,302 +1,302 @@
-#! /usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# copyright 2014 Hamilton Kibbe <ham@hamiltonkib.be>
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-
-#     http://www.apache.org/licenses/LICENSE-2.0
-
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-
-import os
-import re
-from collections import namedtuple
-
-from . import common
-from .excellon import ExcellonFile
-from .ipc356 import IPCNetlist
-
-
-Hint = namedtuple('Hint', 'layer ext name regex content')
-
-hints = [
-    Hint(layer='top',
-         ext=['gtl', 'cmp', 'top', ],
-         name=['art01', 'top', 'GTL', 'layer1', 'soldcom', 'comp', 'F.Cu', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottom',
-         ext=['gbl', 'sld', 'bot', 'sol', 'bottom', ],
-         name=['art02', 'bottom', 'bot', 'GBL', 'layer2', 'soldsold', 'B.Cu', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='internal',
-         ext=['in', 'gt1', 'gt2', 'gt3', 'gt4', 'gt5', 'gt6',
-              'g1', 'g2', 'g3', 'g4', 'g5', 'g6', ],
-         name=['art', 'internal', 'pgp', 'pwr', 'gnd', 'ground',
-               'gp1', 'gp2', 'gp3', 'gp4', 'gt5', 'gp6',
-               'In1.Cu', 'In2.Cu', 'In3.Cu', 'In4.Cu',
-               'group3', 'group4', 'group5', 'group6', 'group7', 'group8', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='topsilk',
-         ext=['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk', ],
-         name=['sst01', 'topsilk', 'silk', 'slk', 'sst', 'F.SilkS'],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottomsilk',
-         ext=['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk', ],
-         name=['bsilk', 'ssb', 'botsilk', 'bottomsilk', 'B.SilkS'],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='topmask',
-         ext=['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask', ],
-         name=['sm01', 'cmask', 'tmask', 'mask1', 'maskcom', 'topmask',
-               'mst', 'F.Mask', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottommask',
-         ext=['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask', ],
-         name=['sm', 'bmask', 'mask2', 'masksold', 'botmask', 'bottommask',
-               'msb', 'B.Mask', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='toppaste',
-         ext=['gtp', 'tm', 'toppaste', ],
-         name=['sp01', 'toppaste', 'pst', 'F.Paste'],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='bottompaste',
-         ext=['gbp', 'bm', 'bottompaste', ],
-         name=['sp02', 'botpaste', 'bottompaste', 'psb', 'B.Paste', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='outline',
-         ext=['gko', 'outline', ],
-         name=['BDR', 'border', 'out', 'outline', 'Edge.Cuts', ],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='ipc_netlist',
-         ext=['ipc'],
-         name=[],
-         regex='',
-         content=[]
-         ),
-    Hint(layer='drawing',
-         ext=['fab'],
-         name=['assembly drawing', 'assembly', 'fabrication',
-               'fab drawing', 'fab'],
-         regex='',
-         content=[]
-         ),
-]
-
-
-def layer_signatures(layer_class):
-    for hint in hints:
-        if hint.layer == layer_class:
-            return hint.ext + hint.name
-    return []
-
-
-def load_layer(filename):
-    return PCBLayer.from_cam(common.read(filename))
-
-
-def load_layer_data(data, filename=None):
-    return PCBLayer.from_cam(common.loads(data, filename))
-
-
-def guess_layer_class(filename):
-    try:
-        layer = guess_layer_class_by_content(filename)
-        if layer:
-            return layer
-    except:
-        pass
-
-    try:
-        directory, filename = os.path.split(filename)
-        name, ext = os.path.splitext(filename.lower())
-        for hint in hints:
-            if hint.regex:
-                if re.findall(hint.regex, filename, re.IGNORECASE):
-                    return hint.layer
-
-            patterns = [r'^(\w*[.-])*{}([.-]\w*)?$'.format(re.escape(x)) for x in hint.name]
-            if ext[1:] in hint.ext or any(re.findall(p, name, re.IGNORECASE) for p in patterns):
-                return hint.layer
-    except:
-        pass
-    return 'unknown'
-
-
-def guess_layer_class_by_content(filename):
-    try:
-        with open(filename, 'r') as file:
-            for line in file:
-                for hint in hints:
-                    if len(hint.content) > 0:
-                        patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
-                        if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
-                            return hint.layer
-    except:
-        pass
-
-    return False
-
-
-def sort_layers(layers, from_top=True):
-    layer_order = ['outline', 'toppaste', 'topsilk', 'topmask', 'top',
-                   'internal', 'bottom', 'bottommask', 'bottomsilk',
-                   'bottompaste']
-    append_after = ['drill', 'drawing']
-
-    output = []
-    drill_layers = [layer for layer in layers if layer.layer_class == 'drill']
-    internal_layers = list(sorted([layer for layer in layers
-                                   if layer.layer_class == 'internal']))
-
-    for layer_class in layer_order:
-        if layer_class == 'internal':
-            output += internal_layers
-        elif layer_class == 'drill':
-            output += drill_layers
-        else:
-            for layer in layers:
-                if layer.layer_class == layer_class:
-                    output.append(layer)
-    if not from_top:
-        output = list(reversed(output))
-
-    for layer_class in append_after:
-        for layer in layers:
-            if layer.layer_class == layer_class:
-                output.append(layer)
-    # Netlists and layers of unknown class
-    output += [layer for layer in layers
-               if layer.layer_class not in layer_order + append_after]
-    return output
-
-
-class PCBLayer(object):
-    """ Base class for PCB Layers
-
-    Parameters
-    ----------
-    source : CAMFile
-        CAMFile representing the layer
-
-
-    Attributes
-    ----------
-    filename : string
-        Source Filename
-
-    """
-    @classmethod
-    def from_cam(cls, camfile):
-        filename = camfile.filename
-        layer_class = guess_layer_class(filename)
-        if isinstance(camfile, IPCNetlist):
-            layer_class = 'ipc_netlist'
-        if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
-            return DrillLayer.from_cam(camfile)
-        elif layer_class == 'internal':
-            return InternalLayer.from_cam(camfile)
-        return cls(filename, layer_class, camfile)
-
-    def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
-        super(PCBLayer, self).__init__(**kwargs)
-        self.filename = filename
-        self.layer_class = layer_class
-        self.cam_source = cam_source
-        self.surface = None
-        self.primitives = cam_source.primitives if cam_source is not None else []
-
-    @property
-    def bounds(self):
-        if self.cam_source is not None:
-            return self.cam_source.bounds
-        else:
-            return None
-
-    def __repr__(self):
-        return '<PCBLayer: {}>'.format(self.layer_class)
-
-
-class DrillLayer(PCBLayer):
-    @classmethod
-    def from_cam(cls, camfile):
-        return cls(camfile.filename, camfile)
-
-    def __init__(self, filename=None, cam_source=None, layers=None, **kwargs):
-        super(DrillLayer, self).__init__(filename, 'drill', cam_source, **kwargs)
-        self.layers = layers if layers is not None else ['top', 'bottom']
-
-
-class InternalLayer(PCBLayer):
-
-    @classmethod
-    def from_cam(cls, camfile):
-        filename = camfile.filename
-        # The number of the layer is that of its extension or the last one of
-        # its name. Others belong to the directory or to the name of the board.
-        name, ext = os.path.splitext(os.path.basename(filename))
-        if ext[1:].lower() in layer_signatures('internal'):
-            numbers = re.findall(r'\d+', ext)
-        else:
-            numbers = re.findall(r'\d+', name)
-        order = int(numbers[-1]) if numbers else 0
-        return cls(filename, camfile, order)
-
-    def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
-        super(InternalLayer, self).__init__(filename, 'internal', cam_source, **kwargs)
-        self.order = order
-
-    def __eq__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order == other.order)
-
-    def __ne__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order != other.order)
-
-    def __gt__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order > other.order)
-
-    def __lt__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order < other.order)
-
-    def __ge__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order >= other.order)
-
-    def __le__(self, other):
-        if not hasattr(other, 'order'):
-            raise TypeError()
-        return (self.order <= other.order)
+#! /usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# copyright 2014 Hamilton Kibbe <ham@hamiltonkib.be>
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+
+#     http://www.apache.org/licenses/LICENSE-2.0
+
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import os
+import re
+from collections import namedtuple
+
+from . import common
+from .excellon import ExcellonFile
+from .ipc356 import IPCNetlist
+
+
+Hint = namedtuple('Hint', 'layer ext name regex content')
+
+hints = [
+    Hint(layer='top',
+         ext=['gtl', 'cmp', 'top', ],
+         name=['art01', 'top', 'GTL', 'layer1', 'soldcom', 'comp', 'F.Cu', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottom',
+         ext=['gbl', 'sld', 'bot', 'sol', 'bottom', ],
+         name=['art02', 'bottom', 'bot', 'GBL', 'layer2', 'soldsold', 'B.Cu', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='internal',
+         ext=['in', 'gt1', 'gt2', 'gt3', 'gt4', 'gt5', 'gt6',
+              'g1', 'g2', 'g3', 'g4', 'g5', 'g6', ],
+         name=['art', 'internal', 'pgp', 'pwr', 'gnd', 'ground',
+               'gp1', 'gp2', 'gp3', 'gp4', 'gt5', 'gp6',
+               'In1.Cu', 'In2.Cu', 'In3.Cu', 'In4.Cu',
+               'group3', 'group4', 'group5', 'group6', 'group7', 'group8', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='topsilk',
+         ext=['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk', ],
+         name=['sst01', 'topsilk', 'silk', 'slk', 'sst', 'F.SilkS'],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottomsilk',
+         ext=['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk', ],
+         name=['bsilk', 'ssb', 'botsilk', 'bottomsilk', 'B.SilkS'],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='topmask',
+         ext=['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask', ],
+         name=['sm01', 'cmask', 'tmask', 'mask1', 'maskcom', 'topmask',
+               'mst', 'F.Mask', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottommask',
+         ext=['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask', ],
+         name=['sm', 'bmask', 'mask2', 'masksold', 'botmask', 'bottommask',
+               'msb', 'B.Mask', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='toppaste',
+         ext=['gtp', 'tm', 'toppaste', ],
+         name=['sp01', 'toppaste', 'pst', 'F.Paste'],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='bottompaste',
+         ext=['gbp', 'bm', 'bottompaste', ],
+         name=['sp02', 'botpaste', 'bottompaste', 'psb', 'B.Paste', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='outline',
+         ext=['gko', 'outline', ],
+         name=['BDR', 'border', 'out', 'outline', 'Edge.Cuts', ],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='ipc_netlist',
+         ext=['ipc'],
+         name=[],
+         regex='',
+         content=[]
+         ),
+    Hint(layer='drawing',
+         ext=['fab'],
+         name=['assembly drawing', 'assembly', 'fabrication',
+               'fab drawing', 'fab'],
+         regex='',
+         content=[]
+         ),
+]
+
+
+def layer_signatures(layer_class):
+    for hint in hints:
+        if hint.layer == layer_class:
+            return hint.ext + hint.name
+    return []
+
+
+def load_layer(filename):
+    return PCBLayer.from_cam(common.read(filename))
+
+
+def load_layer_data(data, filename=None):
+    return PCBLayer.from_cam(common.loads(data, filename))
+
+
+def guess_layer_class(filename):
+    try:
+        layer = guess_layer_class_by_content(filename)
+        if layer:
+            return layer
+    except:
+        pass
+
+    try:
+        directory, filename = os.path.split(filename)
+        name, ext = os.path.splitext(filename.lower())
+        for hint in hints:
+            if hint.regex:
+                if re.findall(hint.regex, filename, re.IGNORECASE):
+                    return hint.layer
+
+            patterns = [r'^(\w*[.-])*{}([.-]\w*)?$'.format(re.escape(x)) for x in hint.name]
+            if ext[1:] in hint.ext or any(re.findall(p, name, re.IGNORECASE) for p in patterns):
+                return hint.layer
+    except:
+        pass
+    return 'unknown'
+
+
+def guess_layer_class_by_content(filename):
+    try:
+        with open(filename, 'r') as file:
+            for line in file:
+                for hint in hints:
+                    if len(hint.content) > 0:
+                        patterns = [r'^(.*){}(.*)$'.format(x) for x in hint.content]
+                        if any(re.findall(p, line, re.IGNORECASE) for p in patterns):
+                            return hint.layer
+    except:
+        pass
+
+    return False
+
+
+def sort_layers(layers, from_top=True):
+    layer_order = ['outline', 'toppaste', 'topsilk', 'topmask', 'top',
+                   'internal', 'bottom', 'bottommask', 'bottomsilk',
+                   'bottompaste']
+    append_after = ['drill', 'drawing']
+
+    output = []
+    drill_layers = [layer for layer in layers if layer.layer_class == 'drill']
+    internal_layers = list(sorted([layer for layer in layers
+                                   if layer.layer_class == 'internal']))
+
+    for layer_class in layer_order:
+        if layer_class == 'internal':
+            output += internal_layers
+        elif layer_class == 'drill':
+            output += drill_layers
+        else:
+            for layer in layers:
+                if layer.layer_class == layer_class:
+                    output.append(layer)
+    if not from_top:
+        output = list(reversed(output))
+
+    for layer_class in append_after:
+        for layer in layers:
+            if layer.layer_class == layer_class:
+                output.append(layer)
+    # Netlists and layers of unknown class
+    output += [layer for layer in layers
+               if layer.layer_class not in layer_order + append_after]
+    return output
+
+
+class PCBLayer(object):
+    """ Base class for PCB Layers
+
+    Parameters
+    ----------
+    source : CAMFile
+        CAMFile representing the layer
+
+
+    Attributes
+    ----------
+    filename : string
+        Source Filename
+
+    """
+    @classmethod
+    def from_cam(cls, camfile):
+        filename = camfile.filename
+        layer_class = guess_layer_class(filename)
+        if isinstance(camfile, IPCNetlist):
+            layer_class = 'ipc_netlist'
+        if isinstance(camfile, ExcellonFile) or (layer_class == 'drill'):
+            return DrillLayer.from_cam(camfile)
+        elif layer_class == 'internal':
+            return InternalLayer.from_cam(camfile)
+        return cls(filename, layer_class, camfile)
+
+    def __init__(self, filename=None, layer_class=None, cam_source=None, **kwargs):
+        super(PCBLayer, self).__init__(**kwargs)
+        self.filename = filename
+        self.layer_class = layer_class
+        self.cam_source = cam_source
+        self.surface = None
+        self.primitives = cam_source.primitives if cam_source is not None else []
+
+    @property
+    def bounds(self):
+        if self.cam_source is not None:
+            return self.cam_source.bounds
+        else:
+            return None
+
+    def __repr__(self):
+        return '<PCBLayer: {}>'.format(self.layer_class)
+
+
+class DrillLayer(PCBLayer):
+    @classmethod
+    def from_cam(cls, camfile):
+        return cls(camfile.filename, camfile)
+
+    def __init__(self, filename=None, cam_source=None, layers=None, **kwargs):
+        super(DrillLayer, self).__init__(filename, 'drill', cam_source, **kwargs)
+        self.layers = layers if layers is not None else ['top', 'bottom']
+
+
+class InternalLayer(PCBLayer):
+
+    @classmethod
+    def from_cam(cls, camfile):
+        filename = camfile.filename
+        # The number of the layer is that of its extension or the last one of
+        # its name. Others belong to the directory or to the name of the board.
+        name, ext = os.path.splitext(os.path.basename(filename))
+        if ext[1:].lower() in layer_signatures('internal'):
+            numbers = re.findall(r'\d+', ext)
+        else:
+            numbers = re.findall(r'\d+', name)
+        order = int(numbers[-1]) if numbers else 0
+        return cls(filename, camfile, order)
+
+    def __init__(self, filename=None, cam_source=None, order=0, **kwargs):
+        super(InternalLayer, self).__init__(filename, 'internal', cam_source, **kwargs)
+        self.order = order
+
+    def __eq__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order == other.order)
+
+    def __ne__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order != other.order)
+
+    def __gt__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order > other.order)
+
+    def __lt__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order < other.order)
+
+    def __ge__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order >= other.order)
+
+    def __le__(self, other):
+        if not hasattr(other, 'order'):
+            raise TypeError()
+        return (self.order <= other.order)
diff --git a/gerber/primitives.py b/gerber/primitives.py
index b50647d..51d7b02 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1,1763 +1,1763 @@
-#! /usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# copyright 2016 Hamilton Kibbe <ham@hamiltonkib.be>
-
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-
-#     http://www.apache.org/licenses/LICENSE-2.0
-
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-
-
-import math
-from operator import add
-from itertools import combinations
-from .utils import validate_coordinates, inch, metric, convex_hull
-from .utils import rotate_point, nearly_equal
-
-
-
-
-class Primitive(object):
-    """ Base class for all Cam file primitives
-
-    Parameters
-    ---------
-    level_polarity : string
-        Polarity of the parameter. May be 'dark' or 'clear'. Dark indicates
-        a "positive" primitive, i.e. indicating where coppper should remain,
-        and clear indicates a negative primitive, such as where copper should
-        be removed. clear primitives are often used to create cutouts in region
-        pours.
-
-    rotation : float
-        Rotation of a primitive about its origin in degrees. Positive rotation
-        is counter-clockwise as viewed from the board top.
-
-    units : string
-        Units in which primitive was defined. 'inch' or 'metric'
-
-    net_name : string
-        Name of the electrical net the primitive belongs to
-    """
-
-    def __init__(self, level_polarity='dark', rotation=0, units=None, net_name=None):
-        self.level_polarity = level_polarity
-        self.net_name = net_name
-        self._to_convert = list()
-        self._memoized = list()
-        self._units = units
-        self._rotation = rotation
-        self._cos_theta = math.cos(math.radians(rotation))
-        self._sin_theta = math.sin(math.radians(rotation))
-        self._bounding_box = None
-        self._vertices = None
-        self._segments = None
-
-    @property
-    def flashed(self):
-        '''Is this a flashed primitive'''
-        raise NotImplementedError('Is flashed must be '
-                                  'implemented in subclass')
-
-    def __eq__(self, other):
-        return self.__dict__ == other.__dict__
-
-    @property
-    def units(self):
-        return self._units
-
-    @units.setter
-    def units(self, value):
-        self._changed()
-        self._units = value
-
-    @property
-    def rotation(self):
-        return self._rotation
-
-    @rotation.setter
-    def rotation(self, value):
-        self._changed()
-        self._rotation = value
-        self._cos_theta = math.cos(math.radians(value))
-        self._sin_theta = math.sin(math.radians(value))
-
-    @property
-    def vertices(self):
-        return None
-
-    @property
-    def segments(self):
-        if self._segments is None:
-            if self.vertices is not None and len(self.vertices):
-                self._segments = [segment for segment in
-                                  combinations(self.vertices, 2)]
-        return self._segments
-
-    @property
-    def bounding_box(self):
-        """ Calculate axis-aligned bounding box
-
-        will be helpful for sweep & prune during DRC clearance checks.
-
-        Return ((min x, max x), (min y, max y))
-        """
-        raise NotImplementedError('Bounding box calculation must be '
-                                  'implemented in subclass')
-
-    @property
-    def bounding_box_no_aperture(self):
-        """ Calculate bouxing box without considering the aperture
-
-        for most objects, this is the same as the bounding_box, but is different for
-        Lines and Arcs (which are not flashed)
-
-        Return ((min x, max x), (min y, max y))
-        """
-        return self.bounding_box
-
-    def to_inch(self):
-        """ Convert primitive units to inches.
-        """
-        if self.units == 'metric':
-            self.units = 'inch'
-            for attr, value in [(attr, getattr(self, attr))
-                                for attr in self._to_convert]:
-                if hasattr(value, 'to_inch'):
-                    value.to_inch()
-                else:
-                    try:
-                        if len(value) > 0:
-                            if hasattr(value[0], 'to_inch'):
-                                for v in value:
-                                    v.to_inch()
-                            elif isinstance(value[0], tuple):
-                                setattr(self, attr,
-                                        [tuple(map(inch, point))
-                                         for point in value])
-                            else:
-                                setattr(self, attr, tuple(map(inch, value)))
-                    except:
-                        if value is not None:
-                            setattr(self, attr, inch(value))
-
-    def to_metric(self):
-        """ Convert primitive units to metric.
-        """
-        if self.units == 'inch':
-            self.units = 'metric'
-            for attr, value in [(attr, getattr(self, attr))
-                                for attr in self._to_convert]:
-                if hasattr(value, 'to_metric'):
-                    value.to_metric()
-                else:
-                    try:
-                        if len(value) > 0:
-                            if hasattr(value[0], 'to_metric'):
-                                for v in value:
-                                    v.to_metric()
-                            elif isinstance(value[0], tuple):
-                                setattr(self, attr,
-                                        [tuple(map(metric, point))
-                                         for point in value])
-                            else:
-                                setattr(self, attr, tuple(map(metric, value)))
-                    except:
-                        if value is not None:
-                            setattr(self, attr, metric(value))
-
-    def offset(self, x_offset=0, y_offset=0):
-        """ Move the primitive by the specified x and y offset amount.
-
-        values are specified in the primitive's native units
-        """
-        if hasattr(self, 'position'):
-            self._changed()
-            self.position = tuple([coord + offset for coord, offset
-                                   in zip(self.position,
-                                          (x_offset, y_offset))])
-
-    def to_statement(self):
-        pass
-
-    def _changed(self):
-        """ Clear memoized properties.
-
-        Forces a recalculation next time any memoized propery is queried.
-        This must be called from a subclass every time a parameter that affects
-        a memoized property is changed. The easiest way to do this is to call
-        _changed() from property.setter methods.
-        """
-        self._bounding_box = None
-        self._vertices = None
-        self._segments = None
-        for attr in self._memoized:
-            setattr(self, attr, None)
-
-
-def _aperture_extent(aperture):
-    """ Half width and half height of the aperture used to draw a stroke """
-    if isinstance(aperture, (Circle, Polygon)):
-        return (aperture.radius, aperture.radius)
-    return (aperture.width / 2., aperture.height / 2.)
-
-
-class Line(Primitive):
-    """
-    """
-
-    def __init__(self, start, end, aperture, level_polarity=None, **kwargs):
-        super(Line, self).__init__(**kwargs)
-        self.level_polarity = level_polarity
-        self._start = start
-        self._end = end
-        self.aperture = aperture
-        self._to_convert = ['start', 'end', 'aperture']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def start(self):
-        return self._start
-
-    @start.setter
-    def start(self, value):
-        self._changed()
-        self._start = value
-
-    @property
-    def end(self):
-        return self._end
-
-    @end.setter
-    def end(self, value):
-        self._changed()
-        self._end = value
-
-    @property
-    def angle(self):
-        delta_x, delta_y = tuple(
-            [end - start for end, start in zip(self.end, self.start)])
-        angle = math.atan2(delta_y, delta_x)
-        return angle
-
-    @property
-    def bounding_box(self):
-        # Not memoized, the aperture may change independently of the line
-        width_2, height_2 = _aperture_extent(self.aperture)
-        ((min_x, max_x), (min_y, max_y)) = self.bounding_box_no_aperture
-        return ((min_x - width_2, max_x + width_2),
-                (min_y - height_2, max_y + height_2))
-
-    @property
-    def bounding_box_no_aperture(self):
-        '''Gets the bounding box without the aperture'''
-        min_x = min(self.start[0], self.end[0])
-        max_x = max(self.start[0], self.end[0])
-        min_y = min(self.start[1], self.end[1])
-        max_y = max(self.start[1], self.end[1])
-        return ((min_x, max_x), (min_y, max_y))
-
-    @property
-    def vertices(self):
-        # Not memoized, the aperture may change independently of the line
-        vertices = None
-        start = self.start
-        end = self.end
-        if isinstance(self.aperture, Rectangle):
-            width = self.aperture.width
-            height = self.aperture.height
-
-            # Find all the corners of the start and end position
-            start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
-            start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
-            start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
-            start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
-            end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
-            end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
-            end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
-            end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
-
-            # The line is defined by the convex hull of the points
-            vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
-        elif isinstance(self.aperture, Polygon):
-            radius = self.aperture.radius
-            sides = self.aperture.sides
-            points = [rotate_point((point[0] + radius, point[1]),
-                                   self.aperture.rotation + i * 360.0 / sides,
-                                   point)
-                      for i in range(sides)
-                      for point in (start, end)]
-            vertices = convex_hull(points)
-        return vertices
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        self.start = tuple([coord + offset for coord, offset
-                            in zip(self.start, (x_offset, y_offset))])
-        self.end = tuple([coord + offset for coord, offset
-                          in zip(self.end, (x_offset, y_offset))])
-
-    def equivalent(self, other, offset):
-
-        if not isinstance(other, Line):
-            return False
-
-        equiv_start = tuple(map(add, other.start, offset))
-        equiv_end = tuple(map(add, other.end, offset))
-
-
-        return nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)
-
-    def __str__(self):
-        return "<Line {} to {}>".format(self.start, self.end)
-
-    def __repr__(self):
-        return str(self)
-
-class Arc(Primitive):
-    """
-    """
-
-    def __init__(self, start, end, center, direction, aperture, quadrant_mode,
-            level_polarity=None, **kwargs):
-        super(Arc, self).__init__(**kwargs)
-        self.level_polarity = level_polarity
-        self._start = start
-        self._end = end
-        self._center = center
-        self.direction = direction
-        self.aperture = aperture
-        self._quadrant_mode = quadrant_mode
-        self._to_convert = ['start', 'end', 'center', 'aperture']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def start(self):
-        return self._start
-
-    @start.setter
-    def start(self, value):
-        self._changed()
-        self._start = value
-
-    @property
-    def end(self):
-        return self._end
-
-    @end.setter
-    def end(self, value):
-        self._changed()
-        self._end = value
-
-    @property
-    def center(self):
-        return self._center
-
-    @center.setter
-    def center(self, value):
-        self._changed()
-        self._center = value
-
-    @property
-    def quadrant_mode(self):
-        return self._quadrant_mode
-
-    @quadrant_mode.setter
-    def quadrant_mode(self, quadrant_mode):
-        self._changed()
-        self._quadrant_mode = quadrant_mode
-
-    @property
-    def radius(self):
-        dy, dx = tuple([start - center for start, center
-                        in zip(self.start, self.center)])
-        return math.sqrt(dy ** 2 + dx ** 2)
-
-    @property
-    def start_angle(self):
-        dx, dy = tuple([start - center for start, center
-                        in zip(self.start, self.center)])
-        return math.atan2(dy, dx)
-
-    @property
-    def end_angle(self):
-        dx, dy = tuple([end - center for end, center
-                        in zip(self.end, self.center)])
-        return math.atan2(dy, dx)
-
-    @property
-    def sweep_angle(self):
-        two_pi = 2 * math.pi
-        theta0 = (self.start_angle + two_pi) % two_pi
-        theta1 = (self.end_angle + two_pi) % two_pi
-        # Arcs with the same start and end point are full circles
-        if self.quadrant_mode == 'multi-quadrant' and self.start == self.end:
-            return two_pi
-        if self.direction == 'counterclockwise':
-            return (theta1 - theta0) % two_pi
-        else:
-            theta0 += two_pi
-            return abs(theta0 - theta1) % two_pi
-
-    @property
-    def bounding_box(self):
-        # Not memoized, the aperture may change independently of the arc
-        width_2, height_2 = _aperture_extent(self.aperture)
-        ((min_x, max_x), (min_y, max_y)) = self.bounding_box_no_aperture
-        return ((min_x - width_2, max_x + width_2),
-                (min_y - height_2, max_y + height_2))
-
-    @property
-    def bounding_box_no_aperture(self):
-        '''Gets the bounding box without considering the aperture'''
-        two_pi = 2 * math.pi
-        theta0 = (self.start_angle + two_pi) % two_pi
-        theta1 = (self.end_angle + two_pi) % two_pi
-        points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
-            if self.direction == 'counterclockwise':
-                # Passes through 0 degrees
-                if theta0 >= theta1:
-                    points.append((self.center[0] + self.radius, self.center[1]))
-                # Passes through 90 degrees
-                if (((theta0 <= math.pi / 2.) and (
-                    (theta1 >= math.pi / 2.) or (theta1 <= theta0)))
-                    or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
-                    points.append((self.center[0], self.center[1] + self.radius))
-                # Passes through 180 degrees
-                if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
-                    or ((theta1 > math.pi) and (theta1 <= theta0))):
-                    points.append((self.center[0] - self.radius, self.center[1]))
-                # Passes through 270 degrees
-                if (theta0 <= math.pi * 1.5 and (
-                        theta1 >= math.pi * 1.5 or theta1 <= theta0)
-                    or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
-                    points.append((self.center[0], self.center[1] - self.radius))
-            else:
-                # Passes through 0 degrees
-                if theta1 >= theta0:
-                    points.append((self.center[0] + self.radius, self.center[1]))
-                # Passes through 90 degrees
-                if (((theta1 <= math.pi / 2.) and (
-                        theta0 >= math.pi / 2. or theta0 <= theta1))
-                    or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
-                    points.append((self.center[0], self.center[1] + self.radius))
-                # Passes through 180 degrees
-                if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
-                    or ((theta0 > math.pi) and (theta0 <= theta1))):
-                    points.append((self.center[0] - self.radius, self.center[1]))
-                # Passes through 270 degrees
-                if (((theta1 <= math.pi * 1.5) and (
-                        theta0 >= math.pi * 1.5 or theta0 <= theta1))
-                    or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
-                    points.append((self.center[0], self.center[1] - self.radius))
-        x, y = zip(*points)
-
-        min_x = min(x)
-        max_x = max(x)
-        min_y = min(y)
-        max_y = max(y)
-        return ((min_x, max_x), (min_y, max_y))
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
-        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
-        self.center = tuple(map(add, self.center, (x_offset, y_offset)))
-
-
-class Circle(Primitive):
-    """
-    """
-
-    def __init__(self, position, diameter, hole_diameter=None,
-                 hole_width=0, hole_height=0, **kwargs):
-        super(Circle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._diameter = diameter
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'diameter', 'hole_diameter', 'hole_width', 'hole_height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def diameter(self):
-        return self._diameter
-
-    @diameter.setter
-    def diameter(self, value):
-        self._changed()
-        self._diameter = value
-
-    @property
-    def radius(self):
-        return self.diameter / 2.
-
-    @property
-    def hole_radius(self):
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-        return None
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
-
-    def equivalent(self, other, offset):
-        '''Is this the same as the other circle, ignoring the offiset?'''
-
-        if not isinstance(other, Circle):
-            return False
-
-        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
-            return False
-
-        equiv_position = tuple(map(add, other.position, offset))
-
-        return nearly_equal(self.position, equiv_position)
-
-
-class Ellipse(Primitive):
-    """
-    """
-    def __init__(self, position, width, height, **kwargs):
-        super(Ellipse, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._to_convert = ['position', 'width', 'height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - (self.axis_aligned_width / 2.0)
-            max_x = self.position[0] + (self.axis_aligned_width / 2.0)
-            min_y = self.position[1] - (self.axis_aligned_height / 2.0)
-            max_y = self.position[1] + (self.axis_aligned_height / 2.0)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    @property
-    def axis_aligned_width(self):
-        ux = (self.width / 2.) * math.cos(math.radians(self.rotation))
-        vx = (self.height / 2.) * \
-            math.cos(math.radians(self.rotation) + (math.pi / 2.))
-        return 2 * math.sqrt((ux * ux) + (vx * vx))
-
-    @property
-    def axis_aligned_height(self):
-        uy = (self.width / 2.) * math.sin(math.radians(self.rotation))
-        vy = (self.height / 2.) * \
-            math.sin(math.radians(self.rotation) + (math.pi / 2.))
-        return 2 * math.sqrt((uy * uy) + (vy * vy))
-
-
-class Rectangle(Primitive):
-    """
-    When rotated, the rotation is about the center point.
-
-    Only aperture macro generated Rectangle objects can be rotated. If you aren't in a AMGroup,
-    then you don't need to worry about rotation
-    """
-
-    def __init__(self, position, width, height, hole_diameter=0,
-                 hole_width=0, hole_height=0, **kwargs):
-        super(Rectangle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
-                            'hole_width', 'hole_height']
-        # TODO These are probably wrong when rotated
-        self._lower_left = None
-        self._upper_right = None
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def hole_radius(self):
-        """The radius of the hole. If there is no hole, returns None"""
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-        return None
-
-    @property
-    def upper_right(self):
-        return (self.position[0] + (self.axis_aligned_width / 2.),
-                self.position[1] + (self.axis_aligned_height / 2.))
-
-    @property
-    def lower_left(self):
-        return (self.position[0] - (self.axis_aligned_width / 2.),
-                self.position[1] - (self.axis_aligned_height / 2.))
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            delta_w = self.width / 2.
-            delta_h = self.height / 2.
-            ll = ((self.position[0] - delta_w), (self.position[1] - delta_h))
-            ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
-            ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
-            lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            self._vertices = [rotate_point(vertex, self.rotation, self.position)
-                              for vertex in [ll, ul, ur, lr]]
-        return self._vertices
-
-    @property
-    def axis_aligned_width(self):
-        return (abs(self._cos_theta) * self.width +
-                abs(self._sin_theta) * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (abs(self._cos_theta) * self.height +
-                abs(self._sin_theta) * self.width)
-
-    def equivalent(self, other, offset):
-        """Is this the same as the other rect, ignoring the offset?"""
-
-        if not isinstance(other, Rectangle):
-            return False
-
-        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
-            return False
-
-        equiv_position = tuple(map(add, other.position, offset))
-
-        return nearly_equal(self.position, equiv_position)
-
-    def __str__(self):
-        return "<Rectangle W {} H {} R {}>".format(self.width, self.height, self.rotation * 180/math.pi)
-
-    def __repr__(self):
-        return self.__str__()
-
-
-class Diamond(Primitive):
-    """
-    """
-
-    def __init__(self, position, width, height, **kwargs):
-        super(Diamond, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._to_convert = ['position', 'width', 'height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            delta_w = self.width / 2.
-            delta_h = self.height / 2.
-            top = (self.position[0], (self.position[1] + delta_h))
-            right = ((self.position[0] + delta_w), self.position[1])
-            bottom = (self.position[0], (self.position[1] - delta_h))
-            left = ((self.position[0] - delta_w), self.position[1])
-            self._vertices = [rotate_point(vertex, self.rotation, self.position)
-                              for vertex in [top, right, bottom, left]]
-        return self._vertices
-
-    @property
-    def axis_aligned_width(self):
-        return (abs(self._cos_theta) * self.width +
-                abs(self._sin_theta) * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (abs(self._cos_theta) * self.height +
-                abs(self._sin_theta) * self.width)
-
-
-class ChamferRectangle(Primitive):
-    """
-    """
-    def __init__(self, position, width, height, chamfer, corners=None, **kwargs):
-        super(ChamferRectangle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._chamfer = chamfer
-        self._corners = corners if corners is not None else [True] * 4
-        self._to_convert = ['position', 'width', 'height', 'chamfer']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def chamfer(self):
-        return self._chamfer
-
-    @chamfer.setter
-    def chamfer(self, value):
-        self._changed()
-        self._chamfer = value
-
-    @property
-    def corners(self):
-        return self._corners
-
-    @corners.setter
-    def corners(self, value):
-        self._changed()
-        self._corners = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def vertices(self):
-        if self._vertices is None:
-            vertices = []
-            delta_w = self.width / 2.
-            delta_h = self.height / 2.
-            # order is UR, UL, LL, LR
-            rect_corners = [
-                ((self.position[0] + delta_w), (self.position[1] + delta_h)),
-                ((self.position[0] - delta_w), (self.position[1] + delta_h)),
-                ((self.position[0] - delta_w), (self.position[1] - delta_h)),
-                ((self.position[0] + delta_w), (self.position[1] - delta_h))
-            ]
-            for idx, params in enumerate(zip(rect_corners, self.corners)):
-                corner, chamfered = params
-                x, y = corner
-                if chamfered:
-                    if idx == 0:
-                        vertices.append((x, y - self.chamfer))
-                        vertices.append((x - self.chamfer, y))
-                    elif idx == 1:
-                        vertices.append((x + self.chamfer, y))
-                        vertices.append((x, y - self.chamfer))
-                    elif idx == 2:
-                        vertices.append((x, y + self.chamfer))
-                        vertices.append((x + self.chamfer, y))
-                    elif idx == 3:
-                        vertices.append((x - self.chamfer, y))
-                        vertices.append((x, y + self.chamfer))
-                else:
-                    vertices.append(corner)
-            self._vertices = [rotate_point(vertex, self.rotation, self.position)
-                              for vertex in vertices]
-        return self._vertices
-
-    @property
-    def axis_aligned_width(self):
-        return (abs(self._cos_theta) * self.width +
-                abs(self._sin_theta) * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (abs(self._cos_theta) * self.height +
-                abs(self._sin_theta) * self.width)
-
-
-class RoundRectangle(Primitive):
-    """
-    """
-
-    def __init__(self, position, width, height, radius, corners, **kwargs):
-        super(RoundRectangle, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self._radius = radius
-        self._corners = corners
-        self._to_convert = ['position', 'width', 'height', 'radius']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def radius(self):
-        return self._radius
-
-    @radius.setter
-    def radius(self, value):
-        self._changed()
-        self._radius = value
-
-    @property
-    def corners(self):
-        return self._corners
-
-    @corners.setter
-    def corners(self, value):
-        self._changed()
-        self._corners = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def axis_aligned_width(self):
-        return (abs(self._cos_theta) * self.width +
-                abs(self._sin_theta) * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (abs(self._cos_theta) * self.height +
-                abs(self._sin_theta) * self.width)
-
-
-class Obround(Primitive):
-    """
-    """
-
-    def __init__(self, position, width, height, hole_diameter=0,
-                 hole_width=0,hole_height=0, **kwargs):
-        super(Obround, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._width = width
-        self._height = height
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
-                            'hole_width', 'hole_height' ]
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def width(self):
-        return self._width
-
-    @width.setter
-    def width(self, value):
-        self._changed()
-        self._width = value
-
-    @property
-    def height(self):
-        return self._height
-
-    @height.setter
-    def height(self, value):
-        self._changed()
-        self._height = value
-
-    @property
-    def hole_radius(self):
-        """The radius of the hole. If there is no hole, returns None"""
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-
-        return None
-
-    @property
-    def orientation(self):
-        return 'vertical' if self.height > self.width else 'horizontal'
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.axis_aligned_width / 2.),
-                  self.position[1] - (self.axis_aligned_height / 2.))
-            ur = (self.position[0] + (self.axis_aligned_width / 2.),
-                  self.position[1] + (self.axis_aligned_height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-    @property
-    def subshapes(self):
-        if self.orientation == 'vertical':
-            circle1 = Circle((self.position[0], self.position[1] +
-                              (self.height - self.width) / 2.), self.width)
-            circle2 = Circle((self.position[0], self.position[1] -
-                              (self.height - self.width) / 2.), self.width)
-            rect = Rectangle(self.position, self.width,
-                             (self.height - self.width))
-        else:
-            circle1 = Circle((self.position[0]
-                              - (self.height - self.width) / 2.,
-                              self.position[1]), self.height)
-            circle2 = Circle((self.position[0]
-                              + (self.height - self.width) / 2.,
-                              self.position[1]), self.height)
-            rect = Rectangle(self.position, (self.width - self.height),
-                             self.height)
-        return {'circle1': circle1, 'circle2': circle2, 'rectangle': rect}
-
-    @property
-    def axis_aligned_width(self):
-        return (abs(self._cos_theta) * self.width +
-                abs(self._sin_theta) * self.height)
-
-    @property
-    def axis_aligned_height(self):
-        return (abs(self._cos_theta) * self.height +
-                abs(self._sin_theta) * self.width)
-
-
-class Polygon(Primitive):
-    """
-    Polygon flash defined by a set number of sides.
-    """
-    def __init__(self, position, sides, radius, hole_diameter=0,
-                 hole_width=0, hole_height=0, **kwargs):
-        super(Polygon, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self.sides = sides
-        self._radius = radius
-        self.hole_diameter = hole_diameter
-        self.hole_width = hole_width
-        self.hole_height = hole_height
-        self._to_convert = ['position', 'radius', 'hole_diameter',
-                            'hole_width', 'hole_height']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def diameter(self):
-        return self.radius * 2
-
-    @property
-    def hole_radius(self):
-        if self.hole_diameter != None:
-            return self.hole_diameter / 2.
-        return None
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def radius(self):
-        return self._radius
-
-    @radius.setter
-    def radius(self, value):
-        self._changed()
-        self._radius = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
-
-    @property
-    def vertices(self):
-
-        offset = self.rotation
-        delta_angle = 360.0 / self.sides
-
-        points = []
-        for i in range(self.sides):
-            points.append(
-                rotate_point((self.position[0] + self.radius, self.position[1]), offset + delta_angle * i, self.position))
-        return points
-
-
-    def equivalent(self, other, offset):
-        """
-        Is this the outline the same as the other, ignoring the position offset?
-        """
-
-        # Quick check if it even makes sense to compare them
-        if (type(self) != type(other) or self.sides != other.sides or
-                self.radius != other.radius or self.rotation != other.rotation):
-            return False
-
-        equiv_pos = tuple(map(add, other.position, offset))
-
-        return nearly_equal(self.position, equiv_pos)
-
-
-class AMGroup(Primitive):
-    """
-    """
-    def __init__(self, amprimitives, stmt = None, **kwargs):
-        """
-
-        stmt : The original statment that generated this, since it is really hard to re-generate from primitives
-        """
-        super(AMGroup, self).__init__(**kwargs)
-
-        self.primitives = []
-        for amprim in amprimitives:
-            prim = amprim.to_primitive(self.units)
-            if isinstance(prim, list):
-                for p in prim:
-                    self.primitives.append(p)
-            elif prim:
-                self.primitives.append(prim)
-        self._position = None
-        self._to_convert = ['_position', 'primitives']
-        self.stmt = stmt
-
-    def to_inch(self):
-        if self.units == 'metric':
-            super(AMGroup, self).to_inch()
-
-            # If we also have a stmt, convert that too
-            if self.stmt:
-                self.stmt.to_inch()
-
-
-    def to_metric(self):
-        if self.units == 'inch':
-            super(AMGroup, self).to_metric()
-
-            # If we also have a stmt, convert that too
-            if self.stmt:
-                self.stmt.to_metric()
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def bounding_box(self):
-        # TODO Make this cached like other items
-        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-        minx, maxx = zip(*xlims)
-        miny, maxy = zip(*ylims)
-        min_x = min(minx)
-        max_x = max(maxx)
-        min_y = min(miny)
-        max_y = max(maxy)
-        return ((min_x, max_x), (min_y, max_y))
-
-    @property
-    def position(self):
-        return self._position
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._position = tuple(map(add, self._position, (x_offset, y_offset)))
-
-        for primitive in self.primitives:
-            primitive.offset(x_offset, y_offset)
-
-    @position.setter
-    def position(self, new_pos):
-        '''
-        Sets the position of the AMGroup.
-        This offset all of the objects by the specified distance.
-        '''
-
-        if self._position:
-            dx = new_pos[0] - self._position[0]
-            dy = new_pos[1] - self._position[1]
-        else:
-            dx = new_pos[0]
-            dy = new_pos[1]
-
-        for primitive in self.primitives:
-            primitive.offset(dx, dy)
-
-        self._position = new_pos
-
-    def equivalent(self, other, offset):
-        '''
-        Is this the macro group the same as the other, ignoring the position offset?
-        '''
-
-        if len(self.primitives) != len(other.primitives):
-            return False
-
-        # We know they have the same number of primitives, so now check them all
-        for i in range(0, len(self.primitives)):
-            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
-                return False
-            if not self.primitives[i].equivalent(other.primitives[i], offset):
-                return False
-
-        # If we didn't find any differences, then they are the same
-        return True
-
-class Outline(Primitive):
-    """
-    Outlines only exist as the rendering for a apeture macro outline.
-    They don't exist outside of AMGroup objects
-    """
-
-    def __init__(self, primitives, **kwargs):
-        super(Outline, self).__init__(**kwargs)
-        self.primitives = primitives
-        self._to_convert = ['primitives']
-
-        if self.primitives[0].start != self.primitives[-1].end:
-            raise ValueError('Outline must be closed')
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def bounding_box(self):
-        # Not memoized, the segments may change independently
-        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
-        minx, maxx = zip(*xlims)
-        miny, maxy = zip(*ylims)
-        min_x = min(minx)
-        max_x = max(maxx)
-        min_y = min(miny)
-        max_y = max(maxy)
-        return ((min_x, max_x), (min_y, max_y))
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        for p in self.primitives:
-            p.offset(x_offset, y_offset)
-
-    @property
-    def vertices(self):
-        return [segment.start for segment in self.primitives]
-
-    @property
-    def width(self):
-        bounding_box = self.bounding_box
-        return bounding_box[0][1] - bounding_box[0][0]
-
-    def equivalent(self, other, offset):
-        '''
-        Is this the outline the same as the other, ignoring the position offset?
-        '''
-
-        # Quick check if it even makes sense to compare them
-        if type(self) != type(other) or len(self.primitives) != len(other.primitives):
-            return False
-
-        for i in range(0, len(self.primitives)):
-            if not self.primitives[i].equivalent(other.primitives[i], offset):
-                return False
-
-        return True
-
-class Region(Primitive):
-    """
-    """
-
-    def __init__(self, primitives, **kwargs):
-        super(Region, self).__init__(**kwargs)
-        self.primitives = primitives
-        self._to_convert = ['primitives']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def bounding_box(self):
-        # Not memoized, the segments may change independently
-        xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
-        minx, maxx = zip(*xlims)
-        miny, maxy = zip(*ylims)
-        min_x = min(minx)
-        max_x = max(maxx)
-        min_y = min(miny)
-        max_y = max(maxy)
-        return ((min_x, max_x), (min_y, max_y))
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        for p in self.primitives:
-            p.offset(x_offset, y_offset)
-
-
-class RoundButterfly(Primitive):
-    """ A circle with two diagonally-opposite quadrants removed
-    """
-
-    def __init__(self, position, diameter, **kwargs):
-        super(RoundButterfly, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._diameter = diameter
-        self._to_convert = ['position', 'diameter']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def diameter(self):
-        return self._diameter
-
-    @diameter.setter
-    def diameter(self, value):
-        self._changed()
-        self._diameter = value
-
-    @property
-    def radius(self):
-        return self.diameter / 2.
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-
-class SquareButterfly(Primitive):
-    """ A square with two diagonally-opposite quadrants removed
-    """
-
-    def __init__(self, position, side, **kwargs):
-        super(SquareButterfly, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._side = side
-        self._to_convert = ['position', 'side']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def side(self):
-        return self._side
-
-    @side.setter
-    def side(self, value):
-        self._changed()
-        self._side = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - (self.side / 2.)
-            max_x = self.position[0] + (self.side / 2.)
-            min_y = self.position[1] - (self.side / 2.)
-            max_y = self.position[1] + (self.side / 2.)
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-
-class Donut(Primitive):
-    """ A Shape with an identical concentric shape removed from its center
-    """
-
-    def __init__(self, position, shape, inner_diameter,
-                 outer_diameter, **kwargs):
-        super(Donut, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        if shape not in ('round', 'square', 'hexagon', 'octagon'):
-            raise ValueError(
-                'Valid shapes are round, square, hexagon or octagon')
-        self.shape = shape
-        if inner_diameter >= outer_diameter:
-            raise ValueError(
-                'Outer diameter must be larger than inner diameter.')
-        self._inner_diameter = inner_diameter
-        self._outer_diameter = outer_diameter
-        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def inner_diameter(self):
-        return self._inner_diameter
-
-    @inner_diameter.setter
-    def inner_diameter(self, value):
-        self._changed()
-        self._inner_diameter = value
-
-    @property
-    def outer_diameter(self):
-        return self._outer_diameter
-
-    @outer_diameter.setter
-    def outer_diameter(self, value):
-        self._changed()
-        self._outer_diameter = value
-
-    @property
-    def width(self):
-        if self.shape == 'hexagon':
-            return 0.5 * math.sqrt(3.) * self.outer_diameter
-        return self.outer_diameter
-
-    @property
-    def height(self):
-        return self.outer_diameter
-
-    @property
-    def lower_left(self):
-        return (self.position[0] - (self.width / 2.),
-                self.position[1] - (self.height / 2.))
-
-    @property
-    def upper_right(self):
-        return (self.position[0] + (self.width / 2.),
-                self.position[1] + (self.height / 2.))
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = (self.position[0] - (self.width / 2.),
-                  self.position[1] - (self.height / 2.))
-            ur = (self.position[0] + (self.width / 2.),
-                  self.position[1] + (self.height / 2.))
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-
-class SquareRoundDonut(Primitive):
-    """ A Square with a circular cutout in the center
-    """
-
-    def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
-        super(SquareRoundDonut, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self._position = position
-        if inner_diameter >= outer_diameter:
-            raise ValueError(
-                'Outer diameter must be larger than inner diameter.')
-        self._inner_diameter = inner_diameter
-        self._outer_diameter = outer_diameter
-        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
-
-    @property
-    def flashed(self):
-        return True
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def inner_diameter(self):
-        return self._inner_diameter
-
-    @inner_diameter.setter
-    def inner_diameter(self, value):
-        self._changed()
-        self._inner_diameter = value
-
-    @property
-    def outer_diameter(self):
-        return self._outer_diameter
-
-    @outer_diameter.setter
-    def outer_diameter(self, value):
-        self._changed()
-        self._outer_diameter = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            ll = tuple([c - self.outer_diameter / 2. for c in self.position])
-            ur = tuple([c + self.outer_diameter / 2. for c in self.position])
-            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
-        return self._bounding_box
-
-
-class Drill(Primitive):
-    """ A drill hole
-    """
-    def __init__(self, position, diameter, **kwargs):
-        super(Drill, self).__init__('dark', **kwargs)
-        validate_coordinates(position)
-        self._position = position
-        self._diameter = diameter
-        self._to_convert = ['position', 'diameter']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def position(self):
-        return self._position
-
-    @position.setter
-    def position(self, value):
-        self._changed()
-        self._position = value
-
-    @property
-    def diameter(self):
-        return self._diameter
-
-    @diameter.setter
-    def diameter(self, value):
-        self._changed()
-        self._diameter = value
-
-    @property
-    def radius(self):
-        return self.diameter / 2.
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            min_x = self.position[0] - self.radius
-            max_x = self.position[0] + self.radius
-            min_y = self.position[1] - self.radius
-            max_y = self.position[1] + self.radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self._changed()
-        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
-
-    def __str__(self):
-        return '<Drill %f %s (%f, %f)>' % (self.diameter, self.units, self.position[0], self.position[1])
-
-
-class Slot(Primitive):
-    """ A drilled slot
-    """
-    def __init__(self, start, end, diameter, **kwargs):
-        super(Slot, self).__init__('dark', **kwargs)
-        validate_coordinates(start)
-        validate_coordinates(end)
-        self._start = start
-        self._end = end
-        self._diameter = diameter
-        self._to_convert = ['start', 'end', 'diameter']
-
-    @property
-    def flashed(self):
-        return False
-
-    @property
-    def start(self):
-        return self._start
-
-    @start.setter
-    def start(self, value):
-        self._changed()
-        self._start = value
-
-    @property
-    def end(self):
-        return self._end
-
-    @end.setter
-    def end(self, value):
-        self._changed()
-        self._end = value
-
-    @property
-    def diameter(self):
-        return self._diameter
-
-    @diameter.setter
-    def diameter(self, value):
-        self._changed()
-        self._diameter = value
-
-    @property
-    def bounding_box(self):
-        if self._bounding_box is None:
-            radius = self.diameter / 2.
-            min_x = min(self.start[0], self.end[0]) - radius
-            max_x = max(self.start[0], self.end[0]) + radius
-            min_y = min(self.start[1], self.end[1]) - radius
-            max_y = max(self.start[1], self.end[1]) + radius
-            self._bounding_box = ((min_x, max_x), (min_y, max_y))
-        return self._bounding_box
-
-    def offset(self, x_offset=0, y_offset=0):
-        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
-        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
-
-
-class TestRecord(Primitive):
-    """ Netlist Test record
-    """
-
-    def __init__(self, position, net_name, layer, **kwargs):
-        super(TestRecord, self).__init__(**kwargs)
-        validate_coordinates(position)
-        self.position = position
-        self.net_name = net_name
-        self.layer = layer
-        self._to_convert = ['position']
+#! /usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# copyright 2016 Hamilton Kibbe <ham@hamiltonkib.be>
+
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+
+#     http://www.apache.org/licenses/LICENSE-2.0
+
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+
+import math
+from operator import add
+from itertools import combinations
+from .utils import validate_coordinates, inch, metric, convex_hull
+from .utils import rotate_point, nearly_equal
+
+
+
+
+class Primitive(object):
+    """ Base class for all Cam file primitives
+
+    Parameters
+    ---------
+    level_polarity : string
+        Polarity of the parameter. May be 'dark' or 'clear'. Dark indicates
+        a "positive" primitive, i.e. indicating where coppper should remain,
+        and clear indicates a negative primitive, such as where copper should
+        be removed. clear primitives are often used to create cutouts in region
+        pours.
+
+    rotation : float
+        Rotation of a primitive about its origin in degrees. Positive rotation
+        is counter-clockwise as viewed from the board top.
+
+    units : string
+        Units in which primitive was defined. 'inch' or 'metric'
+
+    net_name : string
+        Name of the electrical net the primitive belongs to
+    """
+
+    def __init__(self, level_polarity='dark', rotation=0, units=None, net_name=None):
+        self.level_polarity = level_polarity
+        self.net_name = net_name
+        self._to_convert = list()
+        self._memoized = list()
+        self._units = units
+        self._rotation = rotation
+        self._cos_theta = math.cos(math.radians(rotation))
+        self._sin_theta = math.sin(math.radians(rotation))
+        self._bounding_box = None
+        self._vertices = None
+        self._segments = None
+
+    @property
+    def flashed(self):
+        '''Is this a flashed primitive'''
+        raise NotImplementedError('Is flashed must be '
+                                  'implemented in subclass')
+
+    def __eq__(self, other):
+        return self.__dict__ == other.__dict__
+
+    @property
+    def units(self):
+        return self._units
+
+    @units.setter
+    def units(self, value):
+        self._changed()
+        self._units = value
+
+    @property
+    def rotation(self):
+        return self._rotation
+
+    @rotation.setter
+    def rotation(self, value):
+        self._changed()
+        self._rotation = value
+        self._cos_theta = math.cos(math.radians(value))
+        self._sin_theta = math.sin(math.radians(value))
+
+    @property
+    def vertices(self):
+        return None
+
+    @property
+    def segments(self):
+        if self._segments is None:
+            if self.vertices is not None and len(self.vertices):
+                self._segments = [segment for segment in
+                                  combinations(self.vertices, 2)]
+        return self._segments
+
+    @property
+    def bounding_box(self):
+        """ Calculate axis-aligned bounding box
+
+        will be helpful for sweep & prune during DRC clearance checks.
+
+        Return ((min x, max x), (min y, max y))
+        """
+        raise NotImplementedError('Bounding box calculation must be '
+                                  'implemented in subclass')
+
+    @property
+    def bounding_box_no_aperture(self):
+        """ Calculate bouxing box without considering the aperture
+
+        for most objects, this is the same as the bounding_box, but is different for
+        Lines and Arcs (which are not flashed)
+
+        Return ((min x, max x), (min y, max y))
+        """
+        return self.bounding_box
+
+    def to_inch(self):
+        """ Convert primitive units to inches.
+        """
+        if self.units == 'metric':
+            self.units = 'inch'
+            for attr, value in [(attr, getattr(self, attr))
+                                for attr in self._to_convert]:
+                if hasattr(value, 'to_inch'):
+                    value.to_inch()
+                else:
+                    try:
+                        if len(value) > 0:
+                            if hasattr(value[0], 'to_inch'):
+                                for v in value:
+                                    v.to_inch()
+                            elif isinstance(value[0], tuple):
+                                setattr(self, attr,
+                                        [tuple(map(inch, point))
+                                         for point in value])
+                            else:
+                                setattr(self, attr, tuple(map(inch, value)))
+                    except:
+                        if value is not None:
+                            setattr(self, attr, inch(value))
+
+    def to_metric(self):
+        """ Convert primitive units to metric.
+        """
+        if self.units == 'inch':
+            self.units = 'metric'
+            for attr, value in [(attr, getattr(self, attr))
+                                for attr in self._to_convert]:
+                if hasattr(value, 'to_metric'):
+                    value.to_metric()
+                else:
+                    try:
+                        if len(value) > 0:
+                            if hasattr(value[0], 'to_metric'):
+                                for v in value:
+                                    v.to_metric()
+                            elif isinstance(value[0], tuple):
+                                setattr(self, attr,
+                                        [tuple(map(metric, point))
+                                         for point in value])
+                            else:
+                                setattr(self, attr, tuple(map(metric, value)))
+                    except:
+                        if value is not None:
+                            setattr(self, attr, metric(value))
+
+    def offset(self, x_offset=0, y_offset=0):
+        """ Move the primitive by the specified x and y offset amount.
+
+        values are specified in the primitive's native units
+        """
+        if hasattr(self, 'position'):
+            self._changed()
+            self.position = tuple([coord + offset for coord, offset
+                                   in zip(self.position,
+                                          (x_offset, y_offset))])
+
+    def to_statement(self):
+        pass
+
+    def _changed(self):
+        """ Clear memoized properties.
+
+        Forces a recalculation next time any memoized propery is queried.
+        This must be called from a subclass every time a parameter that affects
+        a memoized property is changed. The easiest way to do this is to call
+        _changed() from property.setter methods.
+        """
+        self._bounding_box = None
+        self._vertices = None
+        self._segments = None
+        for attr in self._memoized:
+            setattr(self, attr, None)
+
+
+def _aperture_extent(aperture):
+    """ Half width and half height of the aperture used to draw a stroke """
+    if isinstance(aperture, (Circle, Polygon)):
+        return (aperture.radius, aperture.radius)
+    return (aperture.width / 2., aperture.height / 2.)
+
+
+class Line(Primitive):
+    """
+    """
+
+    def __init__(self, start, end, aperture, level_polarity=None, **kwargs):
+        super(Line, self).__init__(**kwargs)
+        self.level_polarity = level_polarity
+        self._start = start
+        self._end = end
+        self.aperture = aperture
+        self._to_convert = ['start', 'end', 'aperture']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def angle(self):
+        delta_x, delta_y = tuple(
+            [end - start for end, start in zip(self.end, self.start)])
+        angle = math.atan2(delta_y, delta_x)
+        return angle
+
+    @property
+    def bounding_box(self):
+        # Not memoized, the aperture may change independently of the line
+        width_2, height_2 = _aperture_extent(self.aperture)
+        ((min_x, max_x), (min_y, max_y)) = self.bounding_box_no_aperture
+        return ((min_x - width_2, max_x + width_2),
+                (min_y - height_2, max_y + height_2))
+
+    @property
+    def bounding_box_no_aperture(self):
+        '''Gets the bounding box without the aperture'''
+        min_x = min(self.start[0], self.end[0])
+        max_x = max(self.start[0], self.end[0])
+        min_y = min(self.start[1], self.end[1])
+        max_y = max(self.start[1], self.end[1])
+        return ((min_x, max_x), (min_y, max_y))
+
+    @property
+    def vertices(self):
+        # Not memoized, the aperture may change independently of the line
+        vertices = None
+        start = self.start
+        end = self.end
+        if isinstance(self.aperture, Rectangle):
+            width = self.aperture.width
+            height = self.aperture.height
+
+            # Find all the corners of the start and end position
+            start_ll = (start[0] - (width / 2.), start[1] - (height / 2.))
+            start_lr = (start[0] + (width / 2.), start[1] - (height / 2.))
+            start_ul = (start[0] - (width / 2.), start[1] + (height / 2.))
+            start_ur = (start[0] + (width / 2.), start[1] + (height / 2.))
+            end_ll = (end[0] - (width / 2.), end[1] - (height / 2.))
+            end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))
+            end_ul = (end[0] - (width / 2.), end[1] + (height / 2.))
+            end_ur = (end[0] + (width / 2.), end[1] + (height / 2.))
+
+            # The line is defined by the convex hull of the points
+            vertices = convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))
+        elif isinstance(self.aperture, Polygon):
+            radius = self.aperture.radius
+            sides = self.aperture.sides
+            points = [rotate_point((point[0] + radius, point[1]),
+                                   self.aperture.rotation + i * 360.0 / sides,
+                                   point)
+                      for i in range(sides)
+                      for point in (start, end)]
+            vertices = convex_hull(points)
+        return vertices
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        self.start = tuple([coord + offset for coord, offset
+                            in zip(self.start, (x_offset, y_offset))])
+        self.end = tuple([coord + offset for coord, offset
+                          in zip(self.end, (x_offset, y_offset))])
+
+    def equivalent(self, other, offset):
+
+        if not isinstance(other, Line):
+            return False
+
+        equiv_start = tuple(map(add, other.start, offset))
+        equiv_end = tuple(map(add, other.end, offset))
+
+
+        return nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)
+
+    def __str__(self):
+        return "<Line {} to {}>".format(self.start, self.end)
+
+    def __repr__(self):
+        return str(self)
+
+class Arc(Primitive):
+    """
+    """
+
+    def __init__(self, start, end, center, direction, aperture, quadrant_mode,
+            level_polarity=None, **kwargs):
+        super(Arc, self).__init__(**kwargs)
+        self.level_polarity = level_polarity
+        self._start = start
+        self._end = end
+        self._center = center
+        self.direction = direction
+        self.aperture = aperture
+        self._quadrant_mode = quadrant_mode
+        self._to_convert = ['start', 'end', 'center', 'aperture']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def center(self):
+        return self._center
+
+    @center.setter
+    def center(self, value):
+        self._changed()
+        self._center = value
+
+    @property
+    def quadrant_mode(self):
+        return self._quadrant_mode
+
+    @quadrant_mode.setter
+    def quadrant_mode(self, quadrant_mode):
+        self._changed()
+        self._quadrant_mode = quadrant_mode
+
+    @property
+    def radius(self):
+        dy, dx = tuple([start - center for start, center
+                        in zip(self.start, self.center)])
+        return math.sqrt(dy ** 2 + dx ** 2)
+
+    @property
+    def start_angle(self):
+        dx, dy = tuple([start - center for start, center
+                        in zip(self.start, self.center)])
+        return math.atan2(dy, dx)
+
+    @property
+    def end_angle(self):
+        dx, dy = tuple([end - center for end, center
+                        in zip(self.end, self.center)])
+        return math.atan2(dy, dx)
+
+    @property
+    def sweep_angle(self):
+        two_pi = 2 * math.pi
+        theta0 = (self.start_angle + two_pi) % two_pi
+        theta1 = (self.end_angle + two_pi) % two_pi
+        # Arcs with the same start and end point are full circles
+        if self.quadrant_mode == 'multi-quadrant' and self.start == self.end:
+            return two_pi
+        if self.direction == 'counterclockwise':
+            return (theta1 - theta0) % two_pi
+        else:
+            theta0 += two_pi
+            return abs(theta0 - theta1) % two_pi
+
+    @property
+    def bounding_box(self):
+        # Not memoized, the aperture may change independently of the arc
+        width_2, height_2 = _aperture_extent(self.aperture)
+        ((min_x, max_x), (min_y, max_y)) = self.bounding_box_no_aperture
+        return ((min_x - width_2, max_x + width_2),
+                (min_y - height_2, max_y + height_2))
+
+    @property
+    def bounding_box_no_aperture(self):
+        '''Gets the bounding box without considering the aperture'''
+        two_pi = 2 * math.pi
+        theta0 = (self.start_angle + two_pi) % two_pi
+        theta1 = (self.end_angle + two_pi) % two_pi
+        points = [self.start, self.end]
+        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
+            if self.direction == 'counterclockwise':
+                # Passes through 0 degrees
+                if theta0 >= theta1:
+                    points.append((self.center[0] + self.radius, self.center[1]))
+                # Passes through 90 degrees
+                if (((theta0 <= math.pi / 2.) and (
+                    (theta1 >= math.pi / 2.) or (theta1 <= theta0)))
+                    or ((theta1 > math.pi / 2.) and (theta1 <= theta0))):
+                    points.append((self.center[0], self.center[1] + self.radius))
+                # Passes through 180 degrees
+                if ((theta0 <= math.pi and (theta1 >= math.pi or theta1 <= theta0))
+                    or ((theta1 > math.pi) and (theta1 <= theta0))):
+                    points.append((self.center[0] - self.radius, self.center[1]))
+                # Passes through 270 degrees
+                if (theta0 <= math.pi * 1.5 and (
+                        theta1 >= math.pi * 1.5 or theta1 <= theta0)
+                    or ((theta1 > math.pi * 1.5) and (theta1 <= theta0))):
+                    points.append((self.center[0], self.center[1] - self.radius))
+            else:
+                # Passes through 0 degrees
+                if theta1 >= theta0:
+                    points.append((self.center[0] + self.radius, self.center[1]))
+                # Passes through 90 degrees
+                if (((theta1 <= math.pi / 2.) and (
+                        theta0 >= math.pi / 2. or theta0 <= theta1))
+                    or ((theta0 > math.pi / 2.) and (theta0 <= theta1))):
+                    points.append((self.center[0], self.center[1] + self.radius))
+                # Passes through 180 degrees
+                if (((theta1 <= math.pi) and (theta0 >= math.pi or theta0 <= theta1))
+                    or ((theta0 > math.pi) and (theta0 <= theta1))):
+                    points.append((self.center[0] - self.radius, self.center[1]))
+                # Passes through 270 degrees
+                if (((theta1 <= math.pi * 1.5) and (
+                        theta0 >= math.pi * 1.5 or theta0 <= theta1))
+                    or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
+                    points.append((self.center[0], self.center[1] - self.radius))
+        x, y = zip(*points)
+
+        min_x = min(x)
+        max_x = max(x)
+        min_y = min(y)
+        max_y = max(y)
+        return ((min_x, max_x), (min_y, max_y))
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
+        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
+        self.center = tuple(map(add, self.center, (x_offset, y_offset)))
+
+
+class Circle(Primitive):
+    """
+    """
+
+    def __init__(self, position, diameter, hole_diameter=None,
+                 hole_width=0, hole_height=0, **kwargs):
+        super(Circle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._diameter = diameter
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'diameter', 'hole_diameter', 'hole_width', 'hole_height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
+    @property
+    def radius(self):
+        return self.diameter / 2.
+
+    @property
+    def hole_radius(self):
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+        return None
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
+
+    def equivalent(self, other, offset):
+        '''Is this the same as the other circle, ignoring the offiset?'''
+
+        if not isinstance(other, Circle):
+            return False
+
+        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
+            return False
+
+        equiv_position = tuple(map(add, other.position, offset))
+
+        return nearly_equal(self.position, equiv_position)
+
+
+class Ellipse(Primitive):
+    """
+    """
+    def __init__(self, position, width, height, **kwargs):
+        super(Ellipse, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._to_convert = ['position', 'width', 'height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - (self.axis_aligned_width / 2.0)
+            max_x = self.position[0] + (self.axis_aligned_width / 2.0)
+            min_y = self.position[1] - (self.axis_aligned_height / 2.0)
+            max_y = self.position[1] + (self.axis_aligned_height / 2.0)
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    @property
+    def axis_aligned_width(self):
+        ux = (self.width / 2.) * math.cos(math.radians(self.rotation))
+        vx = (self.height / 2.) * \
+            math.cos(math.radians(self.rotation) + (math.pi / 2.))
+        return 2 * math.sqrt((ux * ux) + (vx * vx))
+
+    @property
+    def axis_aligned_height(self):
+        uy = (self.width / 2.) * math.sin(math.radians(self.rotation))
+        vy = (self.height / 2.) * \
+            math.sin(math.radians(self.rotation) + (math.pi / 2.))
+        return 2 * math.sqrt((uy * uy) + (vy * vy))
+
+
+class Rectangle(Primitive):
+    """
+    When rotated, the rotation is about the center point.
+
+    Only aperture macro generated Rectangle objects can be rotated. If you aren't in a AMGroup,
+    then you don't need to worry about rotation
+    """
+
+    def __init__(self, position, width, height, hole_diameter=0,
+                 hole_width=0, hole_height=0, **kwargs):
+        super(Rectangle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
+                            'hole_width', 'hole_height']
+        # TODO These are probably wrong when rotated
+        self._lower_left = None
+        self._upper_right = None
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def hole_radius(self):
+        """The radius of the hole. If there is no hole, returns None"""
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+        return None
+
+    @property
+    def upper_right(self):
+        return (self.position[0] + (self.axis_aligned_width / 2.),
+                self.position[1] + (self.axis_aligned_height / 2.))
+
+    @property
+    def lower_left(self):
+        return (self.position[0] - (self.axis_aligned_width / 2.),
+                self.position[1] - (self.axis_aligned_height / 2.))
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            delta_w = self.width / 2.
+            delta_h = self.height / 2.
+            ll = ((self.position[0] - delta_w), (self.position[1] - delta_h))
+            ul = ((self.position[0] - delta_w), (self.position[1] + delta_h))
+            ur = ((self.position[0] + delta_w), (self.position[1] + delta_h))
+            lr = ((self.position[0] + delta_w), (self.position[1] - delta_h))
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [ll, ul, ur, lr]]
+        return self._vertices
+
+    @property
+    def axis_aligned_width(self):
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
+
+    def equivalent(self, other, offset):
+        """Is this the same as the other rect, ignoring the offset?"""
+
+        if not isinstance(other, Rectangle):
+            return False
+
+        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+            return False
+
+        equiv_position = tuple(map(add, other.position, offset))
+
+        return nearly_equal(self.position, equiv_position)
+
+    def __str__(self):
+        return "<Rectangle W {} H {} R {}>".format(self.width, self.height, self.rotation * 180/math.pi)
+
+    def __repr__(self):
+        return self.__str__()
+
+
+class Diamond(Primitive):
+    """
+    """
+
+    def __init__(self, position, width, height, **kwargs):
+        super(Diamond, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._to_convert = ['position', 'width', 'height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            delta_w = self.width / 2.
+            delta_h = self.height / 2.
+            top = (self.position[0], (self.position[1] + delta_h))
+            right = ((self.position[0] + delta_w), self.position[1])
+            bottom = (self.position[0], (self.position[1] - delta_h))
+            left = ((self.position[0] - delta_w), self.position[1])
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in [top, right, bottom, left]]
+        return self._vertices
+
+    @property
+    def axis_aligned_width(self):
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
+
+
+class ChamferRectangle(Primitive):
+    """
+    """
+    def __init__(self, position, width, height, chamfer, corners=None, **kwargs):
+        super(ChamferRectangle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._chamfer = chamfer
+        self._corners = corners if corners is not None else [True] * 4
+        self._to_convert = ['position', 'width', 'height', 'chamfer']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def chamfer(self):
+        return self._chamfer
+
+    @chamfer.setter
+    def chamfer(self, value):
+        self._changed()
+        self._chamfer = value
+
+    @property
+    def corners(self):
+        return self._corners
+
+    @corners.setter
+    def corners(self, value):
+        self._changed()
+        self._corners = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def vertices(self):
+        if self._vertices is None:
+            vertices = []
+            delta_w = self.width / 2.
+            delta_h = self.height / 2.
+            # order is UR, UL, LL, LR
+            rect_corners = [
+                ((self.position[0] + delta_w), (self.position[1] + delta_h)),
+                ((self.position[0] - delta_w), (self.position[1] + delta_h)),
+                ((self.position[0] - delta_w), (self.position[1] - delta_h)),
+                ((self.position[0] + delta_w), (self.position[1] - delta_h))
+            ]
+            for idx, params in enumerate(zip(rect_corners, self.corners)):
+                corner, chamfered = params
+                x, y = corner
+                if chamfered:
+                    if idx == 0:
+                        vertices.append((x, y - self.chamfer))
+                        vertices.append((x - self.chamfer, y))
+                    elif idx == 1:
+                        vertices.append((x + self.chamfer, y))
+                        vertices.append((x, y - self.chamfer))
+                    elif idx == 2:
+                        vertices.append((x, y + self.chamfer))
+                        vertices.append((x + self.chamfer, y))
+                    elif idx == 3:
+                        vertices.append((x - self.chamfer, y))
+                        vertices.append((x, y + self.chamfer))
+                else:
+                    vertices.append(corner)
+            self._vertices = [rotate_point(vertex, self.rotation, self.position)
+                              for vertex in vertices]
+        return self._vertices
+
+    @property
+    def axis_aligned_width(self):
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
+
+
+class RoundRectangle(Primitive):
+    """
+    """
+
+    def __init__(self, position, width, height, radius, corners, **kwargs):
+        super(RoundRectangle, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self._radius = radius
+        self._corners = corners
+        self._to_convert = ['position', 'width', 'height', 'radius']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def radius(self):
+        return self._radius
+
+    @radius.setter
+    def radius(self, value):
+        self._changed()
+        self._radius = value
+
+    @property
+    def corners(self):
+        return self._corners
+
+    @corners.setter
+    def corners(self, value):
+        self._changed()
+        self._corners = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def axis_aligned_width(self):
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
+
+
+class Obround(Primitive):
+    """
+    """
+
+    def __init__(self, position, width, height, hole_diameter=0,
+                 hole_width=0,hole_height=0, **kwargs):
+        super(Obround, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._width = width
+        self._height = height
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'width', 'height', 'hole_diameter',
+                            'hole_width', 'hole_height' ]
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def width(self):
+        return self._width
+
+    @width.setter
+    def width(self, value):
+        self._changed()
+        self._width = value
+
+    @property
+    def height(self):
+        return self._height
+
+    @height.setter
+    def height(self, value):
+        self._changed()
+        self._height = value
+
+    @property
+    def hole_radius(self):
+        """The radius of the hole. If there is no hole, returns None"""
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+
+        return None
+
+    @property
+    def orientation(self):
+        return 'vertical' if self.height > self.width else 'horizontal'
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.axis_aligned_width / 2.),
+                  self.position[1] - (self.axis_aligned_height / 2.))
+            ur = (self.position[0] + (self.axis_aligned_width / 2.),
+                  self.position[1] + (self.axis_aligned_height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+    @property
+    def subshapes(self):
+        if self.orientation == 'vertical':
+            circle1 = Circle((self.position[0], self.position[1] +
+                              (self.height - self.width) / 2.), self.width)
+            circle2 = Circle((self.position[0], self.position[1] -
+                              (self.height - self.width) / 2.), self.width)
+            rect = Rectangle(self.position, self.width,
+                             (self.height - self.width))
+        else:
+            circle1 = Circle((self.position[0]
+                              - (self.height - self.width) / 2.,
+                              self.position[1]), self.height)
+            circle2 = Circle((self.position[0]
+                              + (self.height - self.width) / 2.,
+                              self.position[1]), self.height)
+            rect = Rectangle(self.position, (self.width - self.height),
+                             self.height)
+        return {'circle1': circle1, 'circle2': circle2, 'rectangle': rect}
+
+    @property
+    def axis_aligned_width(self):
+        return (abs(self._cos_theta) * self.width +
+                abs(self._sin_theta) * self.height)
+
+    @property
+    def axis_aligned_height(self):
+        return (abs(self._cos_theta) * self.height +
+                abs(self._sin_theta) * self.width)
+
+
+class Polygon(Primitive):
+    """
+    Polygon flash defined by a set number of sides.
+    """
+    def __init__(self, position, sides, radius, hole_diameter=0,
+                 hole_width=0, hole_height=0, **kwargs):
+        super(Polygon, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self.sides = sides
+        self._radius = radius
+        self.hole_diameter = hole_diameter
+        self.hole_width = hole_width
+        self.hole_height = hole_height
+        self._to_convert = ['position', 'radius', 'hole_diameter',
+                            'hole_width', 'hole_height']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def diameter(self):
+        return self.radius * 2
+
+    @property
+    def hole_radius(self):
+        if self.hole_diameter != None:
+            return self.hole_diameter / 2.
+        return None
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def radius(self):
+        return self._radius
+
+    @radius.setter
+    def radius(self, value):
+        self._changed()
+        self._radius = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
+
+    @property
+    def vertices(self):
+
+        offset = self.rotation
+        delta_angle = 360.0 / self.sides
+
+        points = []
+        for i in range(self.sides):
+            points.append(
+                rotate_point((self.position[0] + self.radius, self.position[1]), offset + delta_angle * i, self.position))
+        return points
+
+
+    def equivalent(self, other, offset):
+        """
+        Is this the outline the same as the other, ignoring the position offset?
+        """
+
+        # Quick check if it even makes sense to compare them
+        if (type(self) != type(other) or self.sides != other.sides or
+                self.radius != other.radius or self.rotation != other.rotation):
+            return False
+
+        equiv_pos = tuple(map(add, other.position, offset))
+
+        return nearly_equal(self.position, equiv_pos)
+
+
+class AMGroup(Primitive):
+    """
+    """
+    def __init__(self, amprimitives, stmt = None, **kwargs):
+        """
+
+        stmt : The original statment that generated this, since it is really hard to re-generate from primitives
+        """
+        super(AMGroup, self).__init__(**kwargs)
+
+        self.primitives = []
+        for amprim in amprimitives:
+            prim = amprim.to_primitive(self.units)
+            if isinstance(prim, list):
+                for p in prim:
+                    self.primitives.append(p)
+            elif prim:
+                self.primitives.append(prim)
+        self._position = None
+        self._to_convert = ['_position', 'primitives']
+        self.stmt = stmt
+
+    def to_inch(self):
+        if self.units == 'metric':
+            super(AMGroup, self).to_inch()
+
+            # If we also have a stmt, convert that too
+            if self.stmt:
+                self.stmt.to_inch()
+
+
+    def to_metric(self):
+        if self.units == 'inch':
+            super(AMGroup, self).to_metric()
+
+            # If we also have a stmt, convert that too
+            if self.stmt:
+                self.stmt.to_metric()
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def bounding_box(self):
+        # TODO Make this cached like other items
+        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
+
+    @property
+    def position(self):
+        return self._position
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._position = tuple(map(add, self._position, (x_offset, y_offset)))
+
+        for primitive in self.primitives:
+            primitive.offset(x_offset, y_offset)
+
+    @position.setter
+    def position(self, new_pos):
+        '''
+        Sets the position of the AMGroup.
+        This offset all of the objects by the specified distance.
+        '''
+
+        if self._position:
+            dx = new_pos[0] - self._position[0]
+            dy = new_pos[1] - self._position[1]
+        else:
+            dx = new_pos[0]
+            dy = new_pos[1]
+
+        for primitive in self.primitives:
+            primitive.offset(dx, dy)
+
+        self._position = new_pos
+
+    def equivalent(self, other, offset):
+        '''
+        Is this the macro group the same as the other, ignoring the position offset?
+        '''
+
+        if len(self.primitives) != len(other.primitives):
+            return False
+
+        # We know they have the same number of primitives, so now check them all
+        for i in range(0, len(self.primitives)):
+            if self.primitives[i].level_polarity != other.primitives[i].level_polarity:
+                return False
+            if not self.primitives[i].equivalent(other.primitives[i], offset):
+                return False
+
+        # If we didn't find any differences, then they are the same
+        return True
+
+class Outline(Primitive):
+    """
+    Outlines only exist as the rendering for a apeture macro outline.
+    They don't exist outside of AMGroup objects
+    """
+
+    def __init__(self, primitives, **kwargs):
+        super(Outline, self).__init__(**kwargs)
+        self.primitives = primitives
+        self._to_convert = ['primitives']
+
+        if self.primitives[0].start != self.primitives[-1].end:
+            raise ValueError('Outline must be closed')
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def bounding_box(self):
+        # Not memoized, the segments may change independently
+        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        for p in self.primitives:
+            p.offset(x_offset, y_offset)
+
+    @property
+    def vertices(self):
+        return [segment.start for segment in self.primitives]
+
+    @property
+    def width(self):
+        bounding_box = self.bounding_box
+        return bounding_box[0][1] - bounding_box[0][0]
+
+    def equivalent(self, other, offset):
+        '''
+        Is this the outline the same as the other, ignoring the position offset?
+        '''
+
+        # Quick check if it even makes sense to compare them
+        if type(self) != type(other) or len(self.primitives) != len(other.primitives):
+            return False
+
+        for i in range(0, len(self.primitives)):
+            if not self.primitives[i].equivalent(other.primitives[i], offset):
+                return False
+
+        return True
+
+class Region(Primitive):
+    """
+    """
+
+    def __init__(self, primitives, **kwargs):
+        super(Region, self).__init__(**kwargs)
+        self.primitives = primitives
+        self._to_convert = ['primitives']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def bounding_box(self):
+        # Not memoized, the segments may change independently
+        xlims, ylims = zip(*[p.bounding_box_no_aperture for p in self.primitives])
+        minx, maxx = zip(*xlims)
+        miny, maxy = zip(*ylims)
+        min_x = min(minx)
+        max_x = max(maxx)
+        min_y = min(miny)
+        max_y = max(maxy)
+        return ((min_x, max_x), (min_y, max_y))
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        for p in self.primitives:
+            p.offset(x_offset, y_offset)
+
+
+class RoundButterfly(Primitive):
+    """ A circle with two diagonally-opposite quadrants removed
+    """
+
+    def __init__(self, position, diameter, **kwargs):
+        super(RoundButterfly, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._diameter = diameter
+        self._to_convert = ['position', 'diameter']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
+    @property
+    def radius(self):
+        return self.diameter / 2.
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+
+class SquareButterfly(Primitive):
+    """ A square with two diagonally-opposite quadrants removed
+    """
+
+    def __init__(self, position, side, **kwargs):
+        super(SquareButterfly, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._side = side
+        self._to_convert = ['position', 'side']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def side(self):
+        return self._side
+
+    @side.setter
+    def side(self, value):
+        self._changed()
+        self._side = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - (self.side / 2.)
+            max_x = self.position[0] + (self.side / 2.)
+            min_y = self.position[1] - (self.side / 2.)
+            max_y = self.position[1] + (self.side / 2.)
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+
+class Donut(Primitive):
+    """ A Shape with an identical concentric shape removed from its center
+    """
+
+    def __init__(self, position, shape, inner_diameter,
+                 outer_diameter, **kwargs):
+        super(Donut, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        if shape not in ('round', 'square', 'hexagon', 'octagon'):
+            raise ValueError(
+                'Valid shapes are round, square, hexagon or octagon')
+        self.shape = shape
+        if inner_diameter >= outer_diameter:
+            raise ValueError(
+                'Outer diameter must be larger than inner diameter.')
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
+    @property
+    def width(self):
+        if self.shape == 'hexagon':
+            return 0.5 * math.sqrt(3.) * self.outer_diameter
+        return self.outer_diameter
+
+    @property
+    def height(self):
+        return self.outer_diameter
+
+    @property
+    def lower_left(self):
+        return (self.position[0] - (self.width / 2.),
+                self.position[1] - (self.height / 2.))
+
+    @property
+    def upper_right(self):
+        return (self.position[0] + (self.width / 2.),
+                self.position[1] + (self.height / 2.))
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = (self.position[0] - (self.width / 2.),
+                  self.position[1] - (self.height / 2.))
+            ur = (self.position[0] + (self.width / 2.),
+                  self.position[1] + (self.height / 2.))
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+
+class SquareRoundDonut(Primitive):
+    """ A Square with a circular cutout in the center
+    """
+
+    def __init__(self, position, inner_diameter, outer_diameter, **kwargs):
+        super(SquareRoundDonut, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self._position = position
+        if inner_diameter >= outer_diameter:
+            raise ValueError(
+                'Outer diameter must be larger than inner diameter.')
+        self._inner_diameter = inner_diameter
+        self._outer_diameter = outer_diameter
+        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']
+
+    @property
+    def flashed(self):
+        return True
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def inner_diameter(self):
+        return self._inner_diameter
+
+    @inner_diameter.setter
+    def inner_diameter(self, value):
+        self._changed()
+        self._inner_diameter = value
+
+    @property
+    def outer_diameter(self):
+        return self._outer_diameter
+
+    @outer_diameter.setter
+    def outer_diameter(self, value):
+        self._changed()
+        self._outer_diameter = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            ll = tuple([c - self.outer_diameter / 2. for c in self.position])
+            ur = tuple([c + self.outer_diameter / 2. for c in self.position])
+            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))
+        return self._bounding_box
+
+
+class Drill(Primitive):
+    """ A drill hole
+    """
+    def __init__(self, position, diameter, **kwargs):
+        super(Drill, self).__init__('dark', **kwargs)
+        validate_coordinates(position)
+        self._position = position
+        self._diameter = diameter
+        self._to_convert = ['position', 'diameter']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def position(self):
+        return self._position
+
+    @position.setter
+    def position(self, value):
+        self._changed()
+        self._position = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
+    @property
+    def radius(self):
+        return self.diameter / 2.
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            min_x = self.position[0] - self.radius
+            max_x = self.position[0] + self.radius
+            min_y = self.position[1] - self.radius
+            max_y = self.position[1] + self.radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self._changed()
+        self.position = tuple(map(add, self.position, (x_offset, y_offset)))
+
+    def __str__(self):
+        return '<Drill %f %s (%f, %f)>' % (self.diameter, self.units, self.position[0], self.position[1])
+
+
+class Slot(Primitive):
+    """ A drilled slot
+    """
+    def __init__(self, start, end, diameter, **kwargs):
+        super(Slot, self).__init__('dark', **kwargs)
+        validate_coordinates(start)
+        validate_coordinates(end)
+        self._start = start
+        self._end = end
+        self._diameter = diameter
+        self._to_convert = ['start', 'end', 'diameter']
+
+    @property
+    def flashed(self):
+        return False
+
+    @property
+    def start(self):
+        return self._start
+
+    @start.setter
+    def start(self, value):
+        self._changed()
+        self._start = value
+
+    @property
+    def end(self):
+        return self._end
+
+    @end.setter
+    def end(self, value):
+        self._changed()
+        self._end = value
+
+    @property
+    def diameter(self):
+        return self._diameter
+
+    @diameter.setter
+    def diameter(self, value):
+        self._changed()
+        self._diameter = value
+
+    @property
+    def bounding_box(self):
+        if self._bounding_box is None:
+            radius = self.diameter / 2.
+            min_x = min(self.start[0], self.end[0]) - radius
+            max_x = max(self.start[0], self.end[0]) + radius
+            min_y = min(self.start[1], self.end[1]) - radius
+            max_y = max(self.start[1], self.end[1]) + radius
+            self._bounding_box = ((min_x, max_x), (min_y, max_y))
+        return self._bounding_box
+
+    def offset(self, x_offset=0, y_offset=0):
+        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
+        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
+
+
+class TestRecord(Primitive):
+    """ Netlist Test record
+    """
+
+    def __init__(self, position, net_name, layer, **kwargs):
+        super(TestRecord, self).__init__(**kwargs)
+        validate_coordinates(position)
+        self.position = position
+        self.net_name = net_name
+        self.layer = layer
+        self._to_convert = ['position']
-- 
2.43.0


From 995b88a36143036591bdd929bb829a99b8eec508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 093/117] fix: arcs that end in the direction of their start
 are no full circle

---
 gerber/primitives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 51d7b02..e119d51 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -410,8 +410,7 @@ class Arc(Primitive):
         if self.direction == 'counterclockwise':
             return (theta1 - theta0) % two_pi
         else:
-            theta0 += two_pi
-            return abs(theta0 - theta1) % two_pi
+            return (theta0 - theta1) % two_pi
 
     @property
     def bounding_box(self):
@@ -428,7 +427,8 @@ class Arc(Primitive):
         theta0 = (self.start_angle + two_pi) % two_pi
         theta1 = (self.end_angle + two_pi) % two_pi
         points = [self.start, self.end]
-        if self.quadrant_mode == 'multi-quadrant' or self.start != self.end:
+        # (ends in the same direction from the center are no full circle)
+        if self.sweep_angle > 0:
             if self.direction == 'counterclockwise':
                 # Passes through 0 degrees
                 if theta0 >= theta1:
-- 
2.43.0


From 2dacb3ef3887633dae58f21d872c12fc8ba03e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 094/117] fix: blanks at the end of a continuation line
 separate words

---
 gerber/ipc356.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/ipc356.py b/gerber/ipc356.py
index c00b424..b967545 100644
--- a/gerber/ipc356.py
+++ b/gerber/ipc356.py
@@ -173,7 +173,7 @@ class IPCNetlistParser(object):
             # Check for existing multiline data...
                 if oldline != '':
                     if len(line) and line[0] == '0':
-                        oldline = oldline.rstrip('\r\n') + line[3:].rstrip()
+                        oldline = oldline.rstrip('\r\n') + line[3:].rstrip('\r\n')
                     else:
                         self._parse_line(oldline)
                         oldline = line
-- 
2.43.0


From 31fd9a4125cfb7926dcec26e36743f03425015ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 095/117] fix: tool tables can be read without settings

---
 gerber/excellon_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index a9ac450..1aa04cb 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -29,6 +29,7 @@ try:
 except(ImportError):
     from io import StringIO
 
+from .cam import FileSettings
 from .excellon_statements import ExcellonTool
 
 def loads(data, settings=None):
@@ -69,7 +70,7 @@ class ExcellonToolDefinitionParser(object):
 
     def __init__(self, settings=None):
         self.tools = {}
-        self.settings = settings
+        self.settings = settings if settings is not None else FileSettings()
 
     def parse_raw(self, data):
         for line in StringIO(data):
-- 
2.43.0


From 6c25f067173f6eb4c2480abe7d7b080175c76409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 096/117] fix: plating of tools in column form

---
 gerber/excellon_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerber/excellon_tool.py b/gerber/excellon_tool.py
index 1aa04cb..2f20979 100644
--- a/gerber/excellon_tool.py
+++ b/gerber/excellon_tool.py
@@ -95,9 +95,9 @@ class ExcellonToolDefinitionParser(object):
                 xtol = self._convert_length(xtol, unit)
                 ytol = self._convert_length(ytol, unit)
 
-                if platedstr == 'PLATED':
+                if platedstr in ('PLATED', 'P'):
                     plated = ExcellonTool.PLATED_YES
-                elif platedstr == 'NON_PLATED':
+                elif platedstr in ('NON_PLATED', 'N'):
                     plated = ExcellonTool.PLATED_NO
                 elif platedstr == 'OPTIONAL':
                     plated = ExcellonTool.PLATED_OPTIONAL
-- 
2.43.0


From 077af4e6edd92cfd89b2de44d381cc61464aae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 097/117] fix: parameter files with incremental coordinates

---
 gerber/excellon_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index 4dbe0ca..e2defdd 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -50,7 +50,7 @@ def loads(data):
 def map_coordinates(value):
     if value == 'ABSOLUTE':
         return 'absolute'
-    return 'relative'
+    return 'incremental'
 
 def map_units(value):
     if value == 'ENGLISH':
-- 
2.43.0


From 62de873fc94422c70854e99cc7dc238afaff94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 098/117] fix: parameter files may leave settings out

---
 gerber/excellon_settings.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gerber/excellon_settings.py b/gerber/excellon_settings.py
index e2defdd..15535d8 100644
--- a/gerber/excellon_settings.py
+++ b/gerber/excellon_settings.py
@@ -83,13 +83,16 @@ class ExcellonSettingsParser(object):
         for line in StringIO(data):
             self._parse(line.strip())
             
-        # Create the FileSettings object
-        self.settings = FileSettings(
-                                     notation=self.values['notation'],
-                                     units=self.values['units'],
-                                     format=(self.values['format-int'], self.values['format-dec'])
-                                     )
-        
+        # Create the FileSettings object, with defaults for what is not given
+        self.settings = FileSettings()
+        if 'notation' in self.values:
+            self.settings.notation = self.values['notation']
+        if 'units' in self.values:
+            self.settings.units = self.values['units']
+        integer, decimal = self.settings.format
+        self.settings.format = (self.values.get('format-int', integer),
+                                self.values.get('format-dec', decimal))
+
         return self.settings
             
     def _parse(self, line):
-- 
2.43.0


From 817d6818a81a1d3669df70fea64ee1f27652b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 099/117] fix: boards without layers for some of the views

---
 gerber/__main__.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 988adff..6a9e8dd 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -92,20 +92,24 @@ def main():
                 bottom = [outline] + bottom
                 copper = [outline] + copper + pcb.drill_layers
 
-            renderer.render_layers(
-                layers=top, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.top.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=bottom, theme=theme.THEMES[args.theme],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.bottom.{1}'.format(args.outfile, outext)
-            )
-            renderer.render_layers(
-                layers=copper, theme=theme.THEMES['Transparent Multilayer'],
-                max_height=args.height, max_width=args.width,
-                filename='{0}.copper.{1}'.format(args.outfile, outext))
+            # Views without any layers can not be rendered
+            if top:
+                renderer.render_layers(
+                    layers=top, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.top.{1}'.format(args.outfile, outext)
+                )
+            if bottom:
+                renderer.render_layers(
+                    layers=bottom, theme=theme.THEMES[args.theme],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.bottom.{1}'.format(args.outfile, outext)
+                )
+            if copper:
+                renderer.render_layers(
+                    layers=copper, theme=theme.THEMES['Transparent Multilayer'],
+                    max_height=args.height, max_width=args.width,
+                    filename='{0}.copper.{1}'.format(args.outfile, outext))
         else:
             pass
     else:
-- 
2.43.0


From d1e5d094a1274d94b859ec51bc62e9ffac44fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 100/117] fix: the picture of the bottom shows holes and
 outline from below, too

---
 gerber/__main__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 6a9e8dd..95aa6ac 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -16,13 +16,25 @@
 # the License.
 
 import os
+import copy
 import argparse
-from .render import available_renderers
+from .render import RenderSettings, available_renderers
 from .render import theme
 from .pcb import PCB
 from . import load_layer
 
 
+def _seen_from_below(view):
+    """ A copy of a theme which mirrors all layers of the bottom of a board
+    """
+    view = copy.copy(view)
+    for layer in ('outline', 'bottomsilk', 'bottommask', 'bottom', 'drill'):
+        settings = view.get(layer, RenderSettings())
+        setattr(view, layer, RenderSettings(settings.color, settings.alpha,
+                                            settings.invert, mirror=True))
+    return view
+
+
 def main():
     parser = argparse.ArgumentParser(
         description='Render gerber files to image',
@@ -101,7 +113,7 @@ def main():
                 )
             if bottom:
                 renderer.render_layers(
-                    layers=bottom, theme=theme.THEMES[args.theme],
+                    layers=bottom, theme=_seen_from_below(theme.THEMES[args.theme]),
                     max_height=args.height, max_width=args.width,
                     filename='{0}.bottom.{1}'.format(args.outfile, outext)
                 )
-- 
2.43.0


From d05e2449f9bf61382867860d436b58518233cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 101/117] fix: layers in inch and metric in one picture

---
 gerber/render/cairo_backend.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index a2f4990..94f2f44 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -21,6 +21,7 @@ try:
 except ImportError:
     import cairocffi as cairo
 
+from copy import copy, deepcopy
 from operator import mul
 import tempfile
 import os
@@ -33,6 +34,25 @@ from ..utils import rotate_point
 from io import BytesIO
 
 
+def _layer_units(layer):
+    return getattr(getattr(layer, 'cam_source', None), 'units', None)
+
+
+def _layer_in_units(layer, units):
+    """ The layer itself, or a copy of it converted to the given units
+    """
+    if units is None or _layer_units(layer) in (units, None):
+        return layer
+    layer = copy(layer)
+    layer.cam_source = deepcopy(layer.cam_source)
+    if units == 'inch':
+        layer.cam_source.to_inch()
+    else:
+        layer.cam_source.to_metric()
+    layer.primitives = layer.cam_source.primitives
+    return layer
+
+
 class GerberCairoContext(GerberContext):
 
     def __init__(self, scale=300):
@@ -49,6 +69,7 @@ class GerberCairoContext(GerberContext):
         self.size_in_inch = None
         self._xform_matrix = None
         self._render_count = 0
+        self._units = None
 
     @property
     def origin_in_pixels(self):
@@ -84,6 +105,10 @@ class GerberCairoContext(GerberContext):
         if bgsettings is None:
             bgsettings = THEMES['default'].get('background', RenderSettings())
 
+        if self._render_count == 0:
+            self._units = _layer_units(layer)
+        layer = _layer_in_units(layer, self._units)
+
         if self._render_count == 0:
             if verbose:
                 print('[Render]: Rendering Background.')
@@ -107,6 +132,9 @@ class GerberCairoContext(GerberContext):
         # Calculate scale parameter
         x_range = [10000, -10000]
         y_range = [10000, -10000]
+        if layers:
+            layers = [_layer_in_units(layer, _layer_units(layers[0]))
+                      for layer in layers]
         for layer in layers:
             bounds = layer.bounds
             if bounds is not None:
-- 
2.43.0


From 13b838578c2079252cad589d115ea0c400419aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 102/117] fix: pictures with less than a pixel per unit

---
 gerber/render/cairo_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 94f2f44..4e06dc2 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -146,7 +146,9 @@ class GerberCairoContext(GerberContext):
         width = x_range[1] - x_range[0]
         height = y_range[1] - y_range[0]
 
-        scale = math.floor(min(float(max_width)/width, float(max_height)/height))
+        scale = min(float(max_width)/width, float(max_height)/height)
+        if scale > 1:
+            scale = math.floor(scale)
         self.scale = (scale, scale)
 
         self.clear()
-- 
2.43.0


From 21a76186c1412e3883309551c05cd5d0ada924a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 103/117] fix: position of test records

---
 gerber/render/cairo_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index 4e06dc2..ec3747a 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -520,14 +520,15 @@ class GerberCairoContext(GerberContext):
         surface.finish()
 
     def _render_test_record(self, primitive, color):
-        position = [pos + origin for pos, origin in
-                    zip(primitive.position, self.origin_in_inch)]
+        position = primitive.position
         self.ctx.select_font_face(
             'monospace', cairo.FONT_SLANT_NORMAL, cairo.FONT_WEIGHT_BOLD)
         self.ctx.set_font_size(13)
         self._render_circle(Circle(position, 0.015), color)
         self.ctx.set_operator(self._get_operator(primitive))
-        self.ctx.move_to(*[self.scale[0] * (coord + 0.015) for coord in position])
+        # (the origin only is part of the transformation of x)
+        x, y = self.scale_point([coord + 0.015 for coord in position])
+        self.ctx.move_to(x, y - self.origin_in_pixels[1])
         self.ctx.scale(1, -1)
         self.ctx.show_text(primitive.net_name)
         self.ctx.scale(1, -1)
-- 
2.43.0


From adaf2627d9a38d3e8f0ac7f56019742b533155e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 104/117] fix: layers show their drill files as they are now

---
 gerber/layers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gerber/layers.py b/gerber/layers.py
index f40858d..c92e488 100644
--- a/gerber/layers.py
+++ b/gerber/layers.py
@@ -229,7 +229,18 @@ class PCBLayer(object):
         self.layer_class = layer_class
         self.cam_source = cam_source
         self.surface = None
-        self.primitives = cam_source.primitives if cam_source is not None else []
+        self._primitives = None
+
+    @property
+    def primitives(self):
+        # The primitives of the source in its present state, unless replaced
+        if self._primitives is not None:
+            return self._primitives
+        return self.cam_source.primitives if self.cam_source is not None else []
+
+    @primitives.setter
+    def primitives(self, primitives):
+        self._primitives = primitives
 
     @property
     def bounds(self):
-- 
2.43.0


From ce0f89a9132bb94cee6788fec02a0cf03d545306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 105/117] fix: round the clip region of a primitive up to whole
 pixels

---
 gerber/render/cairo_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index ec3747a..d07377e 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -600,7 +600,7 @@ class GerberCairoContext(GerberContext):
                 # caused by flipping the axis.
                 clp.ymin = math.floor(
                     (self.scale[1] * ymin) - math.ceil(self.origin_in_pixels[1]))
-                clp.ymax = math.floor(
+                clp.ymax = math.ceil(
                     (self.scale[1] * ymax) - math.floor(self.origin_in_pixels[1]))
 
                 # Calculate width and height, rounded to the nearest pixel
-- 
2.43.0


From 26bb6476eae66e4a35d0602edf5a22d767decaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 106/117] fix: draw the moire and lower left line elements of
 macros

---
 gerber/am_statements.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index 090dec0..aab4b40 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -701,8 +701,27 @@ class AMMoirePrimitive(AMPrimitive):
         return _format(fmt, **data)
 
     def to_primitive(self, units):
-        #raise NotImplementedError()
-        return None
+        # The rotation is about the macro origin, so the center rotates as well
+        center = rotate_point(self.position, self.rotation)
+
+        primitives = []
+        diameter = self.diameter
+        while diameter > 0 and len(primitives) < self.max_rings:
+            # The innermost ring may be a disc
+            hole_diameter = max(diameter - 2 * self.ring_thickness, 0)
+            primitives.append(Circle(center, diameter, hole_diameter=hole_diameter,
+                                     units=units, level_polarity=self._level_polarity))
+            diameter -= 2 * (self.ring_thickness + self.gap)
+
+        # The crosshair
+        if self.crosshair_thickness > 0 and self.crosshair_length > 0:
+            for width, height in ((self.crosshair_length, self.crosshair_thickness),
+                                  (self.crosshair_thickness, self.crosshair_length)):
+                line = AMCenterLinePrimitive(21, self.exposure, width, height,
+                                             self.position, self.rotation)
+                primitives.append(line.to_primitive(units))
+
+        return primitives
 
 
 class AMThermalPrimitive(AMPrimitive):
@@ -1075,6 +1094,13 @@ class AMLowerLeftLinePrimitive(AMPrimitive):
         fmt = "{code},{exposure},{width},{height},{lower_left},{rotation}*"
         return _format(fmt, **data)
 
+    def to_primitive(self, units):
+        center = (self.lower_left[0] + self.width / 2.0,
+                  self.lower_left[1] + self.height / 2.0)
+        line = AMCenterLinePrimitive(21, self.exposure, self.width, self.height,
+                                     center, self.rotation)
+        return line.to_primitive(units)
+
 
 class AMUnsupportPrimitive(AMPrimitive):
     @classmethod
-- 
2.43.0


From ea23055f3f0841d193b7808b2286d10b3f99d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 107/117] fix: skip views without any objects on the command
 line

---
 gerber/__main__.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/gerber/__main__.py b/gerber/__main__.py
index 95aa6ac..e7b64ac 100644
--- a/gerber/__main__.py
+++ b/gerber/__main__.py
@@ -35,6 +35,12 @@ def _seen_from_below(view):
     return view
 
 
+def _has_extent(layer):
+    """ Does the layer have any objects, which tell where it is
+    """
+    return layer.bounds is not None and len(layer.primitives) > 0
+
+
 def main():
     parser = argparse.ArgumentParser(
         description='Render gerber files to image',
@@ -104,20 +110,20 @@ def main():
                 bottom = [outline] + bottom
                 copper = [outline] + copper + pcb.drill_layers
 
-            # Views without any layers can not be rendered
-            if top:
+            # Views without any objects can not be rendered
+            if any(_has_extent(layer) for layer in top):
                 renderer.render_layers(
                     layers=top, theme=theme.THEMES[args.theme],
                     max_height=args.height, max_width=args.width,
                     filename='{0}.top.{1}'.format(args.outfile, outext)
                 )
-            if bottom:
+            if any(_has_extent(layer) for layer in bottom):
                 renderer.render_layers(
                     layers=bottom, theme=_seen_from_below(theme.THEMES[args.theme]),
                     max_height=args.height, max_width=args.width,
                     filename='{0}.bottom.{1}'.format(args.outfile, outext)
                 )
-            if copper:
+            if any(_has_extent(layer) for layer in copper):
                 renderer.render_layers(
                     layers=copper, theme=theme.THEMES['Transparent Multilayer'],
                     max_height=args.height, max_width=args.width,
@@ -125,12 +131,18 @@ def main():
         else:
             pass
     else:
-        filenames = args.filenames
-        for filename in filenames:
-            layer = load_layer(filename)
-            settings = theme.THEMES[args.theme].get(layer.layer_class, None)
-            renderer.render_layer(layer, settings=settings)
-        renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
+        layers = [load_layer(filename) for filename in args.filenames]
+        # The first layer with any objects tells what the picture covers
+        extent = next((layer for layer in layers if _has_extent(layer)), None)
+        if extent is not None:
+            if layers[0] is not extent:
+                getattr(layers[0].cam_source,
+                        'to_' + extent.cam_source.units)()
+            for layer in layers:
+                settings = theme.THEMES[args.theme].get(layer.layer_class, None)
+                renderer.render_layer(layer, settings=settings,
+                                      bounds=extent.bounds)
+            renderer.dump(filename='{0}.{1}'.format(args.outfile, outext))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From f6cf98de296e63ac2ca3717c5626db9fce87f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 108/117] fix: return the SVG picture as a string

---
 gerber/render/cairo_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index d07377e..c68787f 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -194,6 +194,7 @@ class GerberCairoContext(GerberContext):
         """
         self.surface.finish()
         self.surface_buffer.flush()
+        self.surface_buffer.seek(0)
         return self.surface_buffer.read()
 
     def clear(self):
-- 
2.43.0


From f618c61649ed61451ce7f0eafdd5487867295dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 109/117] fix: give macros that draw nothing a bounding box

---
 gerber/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index e119d51..835e8d7 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -1262,6 +1262,10 @@ class AMGroup(Primitive):
     @property
     def bounding_box(self):
         # TODO Make this cached like other items
+        if not self.primitives:
+            # Nothing is drawn, but it has a place
+            x, y = self.position or (0, 0)
+            return ((x, x), (y, y))
         xlims, ylims = zip(*[p.bounding_box for p in self.primitives])
         minx, maxx = zip(*xlims)
         miny, maxy = zip(*ylims)
-- 
2.43.0


From e0b3637fb9fffd9db7a32a888b9506340b047ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 110/117] fix: keep unknown macro elements apart when reading
 and writing

---
 gerber/gerber_statements.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index a3fc649..48fdb01 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -457,23 +457,24 @@ class AMParamStmt(ParamStmt):
             self.parametrized = True
 
         for primitive in eval_macro(self.instructions, modifiers[0]):
+            code = primitive.split(',')[0]
             if primitive[0] == '0':
                 self.primitives.append(AMCommentPrimitive.from_gerber(primitive))
-            elif primitive[0] == '1':
+            elif code == '1':
                 self.primitives.append(AMCirclePrimitive.from_gerber(primitive))
-            elif primitive[0:2] in ('2,', '20'):
+            elif code in ('2', '20'):
                 self.primitives.append(AMVectorLinePrimitive.from_gerber(primitive))
-            elif primitive[0:2] == '21':
+            elif code == '21':
                 self.primitives.append(AMCenterLinePrimitive.from_gerber(primitive))
-            elif primitive[0:2] == '22':
+            elif code == '22':
                 self.primitives.append(AMLowerLeftLinePrimitive.from_gerber(primitive))
-            elif primitive[0] == '4':
+            elif code == '4':
                 self.primitives.append(AMOutlinePrimitive.from_gerber(primitive))
-            elif primitive[0] == '5':
+            elif code == '5':
                 self.primitives.append(AMPolygonPrimitive.from_gerber(primitive))
-            elif primitive[0] == '6':
+            elif code == '6':
                 self.primitives.append(AMMoirePrimitive.from_gerber(primitive))
-            elif primitive[0] == '7':
+            elif code == '7':
                 self.primitives.append(
                     AMThermalPrimitive.from_gerber(primitive))
             else:
@@ -523,7 +524,8 @@ class AMParamStmt(ParamStmt):
     def to_gerber(self, settings=None):
         if self.parametrized or not self.primitives:
             return '%AM{0}*{1}%'.format(self.name, ''.join([block + '*' for block in self._macro_blocks()]))
-        return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber() for primitive in self.primitives]))
+        # (primitives which are not supported are kept as they were read)
+        return '%AM{0}*{1}%'.format(self.name, "".join([primitive.to_gerber().rstrip('*') + '*' for primitive in self.primitives]))
 
     def __str__(self):
         return '<Aperture Macro %s: %s>' % (self.name, self.macro)
-- 
2.43.0


From 9d2ba511d94335571179c275c190504098495970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 111/117] fix: compare graphic objects by value and derive
 segments from present vertices

---
 gerber/primitives.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 835e8d7..19d7b56 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -59,7 +59,6 @@ class Primitive(object):
         self._sin_theta = math.sin(math.radians(rotation))
         self._bounding_box = None
         self._vertices = None
-        self._segments = None
 
     @property
     def flashed(self):
@@ -68,7 +67,15 @@ class Primitive(object):
                                   'implemented in subclass')
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return (type(self) == type(other) and
+                self._not_memoized() == other._not_memoized())
+
+    def _not_memoized(self):
+        """ The attributes that do not depend on what has been queried.
+        """
+        memoized = ['_bounding_box', '_vertices'] + self._memoized
+        return dict((attr, value) for attr, value in self.__dict__.items()
+                    if attr not in memoized)
 
     @property
     def units(self):
@@ -96,11 +103,11 @@ class Primitive(object):
 
     @property
     def segments(self):
-        if self._segments is None:
-            if self.vertices is not None and len(self.vertices):
-                self._segments = [segment for segment in
-                                  combinations(self.vertices, 2)]
-        return self._segments
+        # Not memoized, the vertices may change independently
+        vertices = self.vertices
+        if vertices is not None and len(vertices):
+            return list(combinations(vertices, 2))
+        return None
 
     @property
     def bounding_box(self):
@@ -198,7 +205,6 @@ class Primitive(object):
         """
         self._bounding_box = None
         self._vertices = None
-        self._segments = None
         for attr in self._memoized:
             setattr(self, attr, None)
 
-- 
2.43.0


From a65f8f0bb5480eecb51dd029b45abbf64033b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 112/117] fix: tell shapes with different holes apart

---
 gerber/primitives.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerber/primitives.py b/gerber/primitives.py
index 19d7b56..f2109b7 100644
--- a/gerber/primitives.py
+++ b/gerber/primitives.py
@@ -552,7 +552,8 @@ class Circle(Primitive):
         if not isinstance(other, Circle):
             return False
 
-        if self.diameter != other.diameter or self.hole_diameter != other.hole_diameter:
+        if (self.diameter != other.diameter or self.hole_diameter != other.hole_diameter or
+                self.hole_width != other.hole_width or self.hole_height != other.hole_height):
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -738,7 +739,9 @@ class Rectangle(Primitive):
         if not isinstance(other, Rectangle):
             return False
 
-        if self.width != other.width or self.height != other.height or self.rotation != other.rotation or self.hole_diameter != other.hole_diameter:
+        if (self.width != other.width or self.height != other.height or
+                self.rotation != other.rotation or self.hole_diameter != other.hole_diameter or
+                self.hole_width != other.hole_width or self.hole_height != other.hole_height):
             return False
 
         equiv_position = tuple(map(add, other.position, offset))
@@ -1214,7 +1217,9 @@ class Polygon(Primitive):
 
         # Quick check if it even makes sense to compare them
         if (type(self) != type(other) or self.sides != other.sides or
-                self.radius != other.radius or self.rotation != other.rotation):
+                self.radius != other.radius or self.rotation != other.rotation or
+                self.hole_diameter != other.hole_diameter or
+                self.hole_width != other.hole_width or self.hole_height != other.hole_height):
             return False
 
         equiv_pos = tuple(map(add, other.position, offset))
-- 
2.43.0


From 16f8c7272454d8a290240ba9ff6e33d57f9aa66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 113/117] fix: compare statements with anything else

---
 gerber/am_statements.py       | 2 +-
 gerber/excellon_statements.py | 2 +-
 gerber/gerber_statements.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index aab4b40..f977ab0 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -102,7 +102,7 @@ class AMPrimitive(object):
         print('Rendering {}s is not supported yet.'.format(str(self.__class__)))
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) == type(other) and self.__dict__ == other.__dict__
 
 
 class AMCommentPrimitive(AMPrimitive):
diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 4f66e27..17240cc 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -68,7 +68,7 @@ class ExcellonStatement(object):
         pass
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) == type(other) and self.__dict__ == other.__dict__
 
 
 class ExcellonTool(ExcellonStatement):
diff --git a/gerber/gerber_statements.py b/gerber/gerber_statements.py
index 48fdb01..a5225c9 100644
--- a/gerber/gerber_statements.py
+++ b/gerber/gerber_statements.py
@@ -70,7 +70,7 @@ class Statement(object):
         pass
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) == type(other) and self.__dict__ == other.__dict__
 
 
 class ParamStmt(Statement):
-- 
2.43.0


From f09af84ace09f7a8a6698e05f723a40e2c9e221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 114/117] fix: units of a Cairo context that has drawn nothing
 yet

---
 gerber/render/cairo_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerber/render/cairo_backend.py b/gerber/render/cairo_backend.py
index c68787f..954883b 100644
--- a/gerber/render/cairo_backend.py
+++ b/gerber/render/cairo_backend.py
@@ -69,7 +69,7 @@ class GerberCairoContext(GerberContext):
         self.size_in_inch = None
         self._xform_matrix = None
         self._render_count = 0
-        self._units = None
+        self._common_units = None
 
     @property
     def origin_in_pixels(self):
@@ -106,8 +106,8 @@ class GerberCairoContext(GerberContext):
             bgsettings = THEMES['default'].get('background', RenderSettings())
 
         if self._render_count == 0:
-            self._units = _layer_units(layer)
-        layer = _layer_in_units(layer, self._units)
+            self._common_units = _layer_units(layer)
+        layer = _layer_in_units(layer, self._common_units)
 
         if self._render_count == 0:
             if verbose:
-- 
2.43.0


From 538eee44bd3f5521d0f5508770d5e17ed58c7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 115/117] fix: macros made from a group of elements keep
 exposure, rings and rotated places

---
 gerber/am_statements.py         | 27 ++++++++++++++++++++-------
 gerber/render/rs274x_backend.py |  9 ++++++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/gerber/am_statements.py b/gerber/am_statements.py
index f977ab0..03d115f 100644
--- a/gerber/am_statements.py
+++ b/gerber/am_statements.py
@@ -47,6 +47,10 @@ def _format(fmt, **data):
                              for key, value in data.items()))
 
 
+def _exposure(primitive):
+    return 'on' if primitive.level_polarity == 'dark' else 'off'
+
+
 class AMPrimitive(object):
     """ Aperture Macro Primitive Base Class
 
@@ -215,7 +219,7 @@ class AMCirclePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(1, 'on', primitive.diameter, primitive.position)
+        return cls(1, _exposure(primitive), primitive.diameter, primitive.position)
 
     def __init__(self, code, exposure, diameter, position, rotation=0):
         validate_coordinates(position)
@@ -291,7 +295,7 @@ class AMVectorLinePrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(2, 'on', primitive.aperture.width, primitive.start, primitive.end, 0)
+        return cls(2, _exposure(primitive), primitive.aperture.width, primitive.start, primitive.end, 0)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -419,7 +423,7 @@ class AMOutlinePrimitive(AMPrimitive):
 
         rotation = 0.0
 
-        return cls(4, 'on', start_point, points, rotation)
+        return cls(4, _exposure(primitive), start_point, points, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -533,7 +537,9 @@ class AMPolygonPrimitive(AMPrimitive):
 
     @classmethod
     def from_primitive(cls, primitive):
-        return cls(5, 'on', primitive.sides, primitive.position, primitive.diameter, primitive.rotation)
+        # The rotation is about the macro origin
+        position = rotate_point(primitive.position, -primitive.rotation)
+        return cls(5, _exposure(primitive), primitive.sides, position, primitive.diameter, primitive.rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
@@ -638,6 +644,12 @@ class AMMoirePrimitive(AMPrimitive):
     ------
     ValueError, TypeError
     """
+    @classmethod
+    def from_primitive(cls, primitive):
+        # A circle with a hole is a single ring
+        thickness = (primitive.diameter - primitive.hole_diameter) / 2.0
+        return cls(6, primitive.position, primitive.diameter, thickness, 0, 1, 0, 0, 0)
+
     @classmethod
     def from_gerber(cls, primitive):
         modifiers = primitive.strip(' *').split(",")
@@ -938,9 +950,10 @@ class AMCenterLinePrimitive(AMPrimitive):
     def from_primitive(cls, primitive):
         width = primitive.width
         height = primitive.height
-        center = primitive.position
-        rotation = math.degrees(primitive.rotation)
-        return cls(21, 'on', width, height, center, rotation)
+        rotation = primitive.rotation
+        # The rotation is about the macro origin
+        center = rotate_point(primitive.position, -rotation)
+        return cls(21, _exposure(primitive), width, height, center, rotation)
 
     @classmethod
     def from_gerber(cls, primitive):
diff --git a/gerber/render/rs274x_backend.py b/gerber/render/rs274x_backend.py
index b4a8557..20cbd9b 100644
--- a/gerber/render/rs274x_backend.py
+++ b/gerber/render/rs274x_backend.py
@@ -51,6 +51,10 @@ class AMGroupContext(object):
                 else:
                     raise ValueError('amgroup')
 
+            if not self.statements:
+                # A macro needs some content
+                self.statements.append(AMCommentPrimitive(0, 'Empty'))
+
             statement = AMParamStmt('AM', name, self._statements_to_string())
             return statement
 
@@ -63,7 +67,10 @@ class AMGroupContext(object):
         return macro
 
     def _render_circle(self, circle):
-        self.statements.append(AMCirclePrimitive.from_primitive(circle))
+        if circle.hole_diameter:
+            self.statements.append(AMMoirePrimitive.from_primitive(circle))
+        else:
+            self.statements.append(AMCirclePrimitive.from_primitive(circle))
 
     def _render_rectangle(self, rectangle):
         self.statements.append(AMCenterLinePrimitive.from_primitive(rectangle))
-- 
2.43.0


From 382cd82c2df48f0e0ff690003ed6ce43979faeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 116/117] fix: incremental modes given in capitals

---
 gerber/excellon_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerber/excellon_statements.py b/gerber/excellon_statements.py
index 17240cc..ec0c58c 100644
--- a/gerber/excellon_statements.py
+++ b/gerber/excellon_statements.py
@@ -713,7 +713,7 @@ class IncrementalModeStmt(ExcellonStatement):
         super(IncrementalModeStmt, self).__init__(**kwargs)
         if mode.lower() not in ['on', 'off']:
             raise ValueError('Mode may be "on" or "off"')
-        self.mode = mode
+        self.mode = mode.lower()
 
     def to_excellon(self, settings=None):
         return 'ICI,%s' % ('OFF' if self.mode == 'off' else 'ON')
-- 
2.43.0


From c4ea18eb8d5059be69c0e543ccb81a763965a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 117/117] fix: JSON dump of files with aperture macros

---
 gerber/rs274x.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerber/rs274x.py b/gerber/rs274x.py
index 9b02692..05b4bd9 100644
--- a/gerber/rs274x.py
+++ b/gerber/rs274x.py
@@ -323,7 +323,8 @@ class GerberParser(object):
 
     def dump_json(self):
         stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}
-        return json.dumps(stmts)
+        # (the elements of a macro are objects of their own)
+        return json.dumps(stmts, default=lambda element: element.__dict__)
 
     def dump_str(self):
         string = ""
-- 
2.43.0

