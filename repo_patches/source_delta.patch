From cfd583a81efb032cd4801bcec3200f775d3fe614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:54 +0000
Subject: [PATCH 01/46] fix: compound units lose scale factors and powers when
 nested

---
 celest/units/core.py     | 24 +++++++++++++++---------
 celest/units/quantity.py |  2 +-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..9a0c2fb 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -69,6 +69,7 @@ class BaseUnit:
             return CompoundUnit(1.0, [self, other], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        return NotImplemented
 
     def __rmul__(self, other):
         if isinstance(other, BaseUnit):
@@ -79,6 +80,7 @@ class BaseUnit:
             return CompoundUnit(1.0, [other, self], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        return NotImplemented
 
     def is_unity(self) -> bool:
         """
@@ -167,6 +169,9 @@ class Unit(NamedUnit, BaseUnit):
 
         if base_units is not None:
             self._scale = base_units.scale
+            if isinstance(base_units, CompoundUnit):
+                for base, power in zip(base_units.bases, base_units.powers):
+                    self._scale *= base.scale ** power
             self._bases = base_units.bases
             self._powers = base_units.powers
         else:
@@ -222,12 +227,12 @@ class CompoundUnit(BaseUnit):
         base = bases[0]
         power = powers[0]
         if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
+            self._scale = scale
             if power == 0:
-                self._scale = scale * base.scale
                 self._bases = []
                 self._powers = []
+                self._is_unity = scale == 1
             else:
-                self._scale = scale * base.scale ** power
                 self._bases = bases
                 self._powers = powers
         else:
@@ -270,15 +275,16 @@ class CompoundUnit(BaseUnit):
 
         for base, power in zip(self._bases, self._powers):
             if isinstance(base, CompoundUnit):
+                if base.scale != 1:
+                    self._scale *= base.scale ** power
+                if not power:
+                    continue
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
-                        if b not in bases:
-                            bases.append(b)
-                            powers.append(p * power)
-                        else:
-                            handle_repeated_units(b, p * power)
+                        bases.append(b)
+                        powers.append(p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
@@ -288,7 +294,7 @@ class CompoundUnit(BaseUnit):
         self._bases = bases
         self._powers = powers
 
-        self._is_unity = True if not len(self._bases) else False
+        self._is_unity = not len(self._bases) and self._scale == 1
 
     def is_unity(self) -> bool:
         return self._is_unity
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..27a6407 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -280,7 +280,7 @@ class Quantity:
 
         def _get_unit_scale(unit):
             if isinstance(unit, CompoundUnit):
-                scale = 1.0
+                scale = unit.scale
                 for base, power in zip(unit.bases, unit.powers):
                     scale *= base.scale ** power
                 return scale
-- 
2.43.0


From ba8734d85c081a815d1a2816eae4709379a70e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:00 +0000
Subject: [PATCH 02/46] fix: dimension of units that cancel crashes and depends
 on factor order

---
 celest/units/display.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..4f864ac 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,11 +90,16 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
             dimensions.append(dimension)
             dimension_powers.append(power)
 
-    return dimensions, dimension_powers
+    # Use one order so that equal dimensions have equal string representations.
+    order = list(dict.fromkeys(UNIT_TO_DIMENSION_DICTIONARY.values()))
+    indices = sorted(range(len(dimensions)),
+                     key=lambda i: order.index(dimensions[i]))
+
+    return [dimensions[i] for i in indices], [dimension_powers[i] for i in indices]
-- 
2.43.0


From e3242fe5efef4e8d4cee3afeec27f1d916fd0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:34 +0000
Subject: [PATCH 03/46] fix: units based on other units have no dimension
 inside compound units

---
 celest/units/display.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 4f864ac..ece6581 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -83,8 +83,7 @@ def get_dimensions_from_unit(unit):
     dimensions = []
     dimension_powers = []
 
-    for base, power in zip(unit.bases, unit.powers):
-        dimension = UNIT_TO_DIMENSION_DICTIONARY[base.short_name]
+    for dimension, power in _get_raw_dimensions_from_unit(unit):
         if dimension in dimensions:
             dimension_index = dimensions.index(dimension)
             new_power = dimension_powers[dimension_index] + power
@@ -103,3 +102,15 @@ def get_dimensions_from_unit(unit):
                      key=lambda i: order.index(dimensions[i]))
 
     return [dimensions[i] for i in indices], [dimension_powers[i] for i in indices]
+
+
+def _get_raw_dimensions_from_unit(unit):
+    for base, power in zip(unit.bases, unit.powers):
+        if base.short_name in UNIT_TO_DIMENSION_DICTIONARY:
+            yield UNIT_TO_DIMENSION_DICTIONARY[base.short_name], power
+        elif base in base.bases:
+            raise KeyError(base.short_name)
+        else:
+            # New units have the dimensions of the units they are based on.
+            for dimension, base_power in _get_raw_dimensions_from_unit(base):
+                yield dimension, base_power * power
-- 
2.43.0


From c9cf669f5af8ee056737e509cf74965fde134cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 04/46] fix: Quantity !=, <= and >= fail on array data and
 non-quantities

---
 celest/units/quantity.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 27a6407..227ae75 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,13 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data != other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
@@ -193,7 +199,13 @@ class Quantity:
             return NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data <= other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __gt__(self, other):
         if isinstance(other, Quantity):
@@ -205,7 +217,13 @@ class Quantity:
             return NotImplemented
 
     def __ge__(self, other):
-        return self.__eq__(other) or self.__gt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data >= other.to(self._unit)
+        else:
+            return NotImplemented
 
     @property
     def data(self) -> Any:
-- 
2.43.0


From 69f928e1d0e72a763c72e48e7bac054c1afaf937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:25 +0000
Subject: [PATCH 05/46] fix: converting integer array quantities fails and unit
 identity is lost

---
 celest/units/quantity.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 227ae75..6ccf4d9 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -305,11 +305,9 @@ class Quantity:
             else:
                 return unit.scale
 
-        quantity_copy = deepcopy(self)
+        data = deepcopy(self._data)
 
-        if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
-            quantity_copy._unit = new_unit
+        if repr(self._unit) != repr(new_unit):
+            data = data * (_get_unit_scale(self._unit) / _get_unit_scale(new_unit))
 
-        return quantity_copy
+        return Quantity(data, new_unit)
-- 
2.43.0


From 097cceba7b482c930ab1dfbab753169d6966015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 06/46] fix: GroundLocation range check ignores the angular
 unit

---
 celest/coordinates/ground_location.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..df08105 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,13 +70,16 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
+        self._latitude = Quantity(latitude, angular_unit)
+        self._longitude = Quantity(longitude, angular_unit)
+
+        latitude_deg = self._latitude.to(u.deg)
+        longitude_deg = self._longitude.to(u.deg)
+        if latitude_deg < -90 or latitude_deg > 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
+        if longitude_deg < -180 or longitude_deg > 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
-        self._latitude = Quantity(latitude, angular_unit)
-        self._longitude = Quantity(longitude, angular_unit)
         self._height = Quantity(height, length_unit)
 
     def __str__(self) -> str:
-- 
2.43.0


From 5b5ffb89bba8d46df5a922f169573b3bc1b00684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:01 +0000
Subject: [PATCH 07/46] fix: sexagesimal strings can display 60.00 seconds

---
 celest/angle_strings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..0bd57ab 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,13 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    # Round before splitting so that the seconds never display as 60.00.
+    minutes, centiseconds = divmod(round(degree_angle * 360000), 6000)
+    degrees, minutes = divmod(minutes, 60)
+
+    degree_string = "%.3s" % str(degrees).zfill(2)
+    minute_string = "%.2s" % str(minutes).zfill(2)
+    second_string = str("%.2f" % (centiseconds / 100)).zfill(5)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From 594ab74899a1a7f1dea7c64d031d31d478bdd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:01 +0000
Subject: [PATCH 08/46] fix: position containers accept arrays of different
 lengths

---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From e92387a6aa007e63b5e15adf282df926eeadae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:23 +0000
Subject: [PATCH 09/46] fix: geodetic latitude and height are inaccurate for
 batches and near the poles

---
 celest/coordinates/transforms.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..462c5d0 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -180,11 +180,9 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
+    height, latitude = _geodetic_height_and_latitude(itrs)
     longitude = np.arctan2(itrs_y, itrs_x)
-    height = _altitude(itrs)
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -221,6 +219,13 @@ def _altitude(itrs: ITRS) -> np.ndarray:
         raise ValueError(f"Input data is in the {itrs.__class__} frame and not"
                          " the ITRS frame.")
 
+    return _geodetic_height_and_latitude(itrs)[0]
+
+
+def _geodetic_height_and_latitude(itrs: ITRS) -> Tuple[np.ndarray, np.ndarray]:
+    """Return the geodetic altitude in kilometers and latitude in radians.
+    """
+
     a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
 
     tol = 10e-10
@@ -233,22 +238,22 @@ def _altitude(itrs: ITRS) -> np.ndarray:
     p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
 
     h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
+    phi = np.arctan2(itrs_z, p * (1 - (e ** 2 * a) / (a + h)))
 
     def new_vals(a, b, e, p, phi, z):
         N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
+        h = p * np.cos(phi) + z * np.sin(phi) - a ** 2 / N
+        phi = np.arctan2(z, p * (1 - (e ** 2 * N) / (N + h)))
 
         return h, phi
 
     hp, phip = new_vals(a, b, e, p, phi, itrs_z)
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
+    while np.any(np.abs(hp - h) > a * tol) or np.any(np.abs(phip - phi) > tol):
         h, phi = hp, phip
         hp, phip = new_vals(a, b, e, p, phi, itrs_z)
 
-    return h
+    return hp, phip
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From aceddf046a4b9a36769e8f3fc7e16df810cde9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:29 +0000
Subject: [PATCH 10/46] fix: azimuth and elevation are wrong away from northern
 mid-latitudes

---
 celest/coordinates/transforms.py | 59 ++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 462c5d0..5e86d7a 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -311,8 +311,8 @@ def _itrs_to_azel(itrs: ITRS, location: GroundLocation) -> AzEl:
     """Itrs to azel transformation.
 
     The azimuth angle ranges from 0 to 360 degrees, measured clockwise
-    from North. The elevation angle ranges from 0 to 90 degrees measured
-    above the local horizon.
+    from North. The elevation angle ranges from -90 to 90 degrees
+    measured above the local horizon.
 
     Parameters
     ----------
@@ -353,32 +353,46 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         1-D array containing azimuth angles in degrees.
     """
 
+    east, north, _ = _east_north_up(itrs, location)
+
+    return np.degrees(np.arctan2(east, north)) % 360
+
+
+def _east_north_up(itrs: ITRS, location: GroundLocation) -> Tuple:
+    """Return the local east, north, and up components in kilometers.
+
+    Parameters
+    ----------
+    itrs : ITRS
+        Itrs coordinates.
+    location : GroundLocation
+        Earth bound origin of the horizontal system.
+
+    Returns
+    -------
+    Tuple
+        1-D arrays containing the components of the ground to satellite vector
+        in the local horizontal system defined by the geodetic vertical.
+    """
+
     sat_itrs = np.array([itrs.x.to(u.km), itrs.y.to(u.km), itrs.z.to(u.km)]).T
     ground_itrs = np.array([
         location.itrs_x.to(u.km),
         location.itrs_y.to(u.km),
         location.itrs_z.to(u.km)
     ])
-
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
-
     ground_to_satellite = sat_itrs - ground_itrs
 
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
-
-    sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
-    sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
-                                        ground_itrs[i] for i in range(3)]).T
-    ground_to_sat_on_plane = ground_to_satellite - sat_to_ground_on_normal
+    latitude = location.latitude.to(u.rad)
+    longitude = location.longitude.to(u.rad)
+    s_lat, c_lat = np.sin(latitude), np.cos(latitude)
+    s_lon, c_lon = np.sin(longitude), np.cos(longitude)
 
-    direction = np.cross(surface_tangent, ground_itrs)
-    negative_indices = np.sum(ground_to_sat_on_plane * direction, axis=1) < 0
-    azimuth = _get_ang(surface_tangent, ground_to_sat_on_plane)
-    azimuth = 360 * negative_indices - 1 * (2 * negative_indices - 1) * azimuth
+    east = np.dot(ground_to_satellite, [-s_lon, c_lon, 0])
+    north = np.dot(ground_to_satellite, [-s_lat * c_lon, -s_lat * s_lon, c_lat])
+    up = np.dot(ground_to_satellite, [c_lat * c_lon, c_lat * s_lon, s_lat])
 
-    return azimuth
+    return east, north, up
 
 
 def _get_ang(u, v) -> np.ndarray:
@@ -424,14 +438,9 @@ def _elevation(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         1-D array containing elevation angles in degrees.
     """
 
-    sat_itrs = np.array([itrs.x.to(u.km), itrs.y.to(u.km), itrs.z.to(u.km)]).T
-    ground_itrs = np.array([
-        location.itrs_x.to(u.km),
-        location.itrs_y.to(u.km),
-        location.itrs_z.to(u.km)
-    ])
+    east, north, up = _east_north_up(itrs, location)
 
-    return 90 - _get_ang(sat_itrs - ground_itrs, ground_itrs)
+    return np.degrees(np.arctan2(up, np.hypot(east, north)))
 
 
 def _gcrs_to_lvlh(gcrs_position: GCRS, gcrs_velocity: GCRS) -> Tuple[LVLH, LVLH]:
-- 
2.43.0


From 6565bf1c7a7c0a4c1a66d47bbd3aef71485dddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:29 +0000
Subject: [PATCH 11/46] fix: angle between parallel vectors can be NaN

---
 celest/coordinates/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 5e86d7a..0334765 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -417,7 +417,8 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    # Rounding can take the cosine of (anti)parallel vectors out of [-1, 1].
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From c490653490e2e2f0685c4ffc10f31a66ff94c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:54 +0000
Subject: [PATCH 12/46] fix: Earth-fixed to inertial conversion truncates
 integer positions

---
 celest/coordinates/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0334765..d3ad387 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -93,6 +93,7 @@ def _rotate_by_earth_rotation_angle(data, degree_era):
 
     radian_era = degree_era.to(u.rad).data
     c, s = np.cos(radian_era), np.sin(radian_era)
+    data = np.array(data, dtype=float)
     c1, c2, c3 = np.copy(data).T
 
     data[:, 0] = c * c1 - s * c2
-- 
2.43.0


From 23520cbc23ee33f55a1e7215f5925c2519aa14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:57 +0000
Subject: [PATCH 13/46] fix: GCRS/ITRS rotation mixes up precession sign,
 nutation axis and Earth rotation

---
 celest/constants.py                           |  1 +
 celest/coordinates/astronomical_quantities.py | 52 +++++++++++++++++++
 .../nutation_precession_matrices.py           | 26 +++++-----
 celest/coordinates/transforms.py              | 19 ++++---
 4 files changed, 77 insertions(+), 21 deletions(-)

diff --git a/celest/constants.py b/celest/constants.py
index 53257e7..adc7920 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -8,6 +8,7 @@ DAYS_PER_YEAR = 365.25
 # Earth rotation constants.
 EARTH_ROTATION_RATE_DEG_PER_DAY = 360.9856123035484
 ERA_AT_JD2000_DEG = 280.46
+GMST_AT_JD2000_DEG = 280.46061837
 
 # WGS84 constants.
 WGS84_MAJOR_AXIS_KM = 6378.137
diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..9682c6c 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -6,6 +6,7 @@ from celest.constants import (
     DAYS_PER_YEAR,
     EARTH_ROTATION_RATE_DEG_PER_DAY,
     ERA_AT_JD2000_DEG,
+    GMST_AT_JD2000_DEG,
     WGS84_MAJOR_AXIS_KM,
     WGS83_FIRST_ECCENTRICITY
 )
@@ -560,6 +561,57 @@ def equation_of_equinoxes(julian: Quantity) -> Quantity:
     return Quantity(result, u.arcsec)
 
 
+def greenwich_mean_sidereal_angle(julian: Quantity) -> Quantity:
+    """Return the Greenwich mean sidereal time as an angle.
+
+    Parameters
+    ----------
+    julian : Quantity
+        Quantity object containing date data in the JD2000 epoch.
+
+    Returns
+    -------
+    Quantity
+        Greenwich mean sidereal angle.
+
+    Notes
+    -----
+    The Greenwich mean sidereal time is calculated using the methods described
+    in "Astronomical Algorithms" by Jean Meeus. [Mee98k]_
+
+    References
+    ----------
+    .. [Mee98k] Jean Meeus. Astronomical algorithms. 2nd ed. Willmann-Bell,
+       1998, pp. 87 - 88. isbn: 9780943396613.
+    """
+
+    t1, t2, t3 = _calculate_raw_elapsed_jd_century_powers(julian, 3)
+    result = GMST_AT_JD2000_DEG + 360.98564736629 * t1 * \
+        DAYS_IN_JULIAN_CENTURY + 0.000387933 * t2 - t3 / 38710000
+
+    return Quantity(result % 360, u.deg)
+
+
+def greenwich_apparent_sidereal_angle(julian: Quantity) -> Quantity:
+    """Return the Greenwich apparent sidereal time as an angle.
+
+    Parameters
+    ----------
+    julian : Quantity
+        Quantity object containing date data in the JD2000 epoch.
+
+    Returns
+    -------
+    Quantity
+        Greenwich apparent sidereal angle.
+    """
+
+    mean_angle = greenwich_mean_sidereal_angle(julian).to(u.deg)
+    eqn_of_equinoxes = 15 * equation_of_equinoxes(julian).to(u.deg)
+
+    return Quantity((mean_angle + eqn_of_equinoxes) % 360, u.deg)
+
+
 def sun_right_ascension(julian: Quantity) -> Quantity:
     """Return the right ascension of the mean sun position.
 
diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index b020d0e..b6edd5f 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -1,7 +1,6 @@
 
 
 from celest.coordinates.astronomical_quantities import (
-    _calculate_raw_elapsed_jd_century_powers,
     mean_obliquity,
     nutation_components,
     conventional_precession_angles
@@ -82,7 +81,7 @@ def precession_matrix(julian: Quantity) -> np.ndarray:
 
     zeta, theta, z = conventional_precession_angles(julian)
 
-    a1 = zeta.to(u.rad)
+    a1 = - zeta.to(u.rad)
     a2 = theta.to(u.rad)
     a3 = - z.to(u.rad)
 
@@ -130,12 +129,11 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
     """
 
     nutation_in_longitude, nutation_in_obliquity = nutation_components(julian)
-    t1, t2, t3 = _calculate_raw_elapsed_jd_century_powers(julian, 3)
-    eps_A = mean_obliquity(julian).to(u.arcsec) - 46.84024 * t1 - 0.00059 * t2 + 0.001813 * t3
+    eps_A = mean_obliquity(julian).to(u.deg)
 
-    a1 = np.radians(eps_A / 3600)
+    a1 = np.radians(eps_A)
     a2 = - nutation_in_longitude.to(u.rad)
-    a3 = - np.radians(eps_A / 3600 + nutation_in_obliquity.to(u.deg))
+    a3 = - np.radians(eps_A + nutation_in_obliquity.to(u.deg))
 
     s1, c1 = np.sin(a1), np.cos(a1)
     s2, c2 = np.sin(a2), np.cos(a2)
@@ -143,13 +141,13 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
 
     matrix = np.zeros((julian.data.size, 3, 3))
     matrix[:, 0, 0] = c2
-    matrix[:, 0, 1] = s1 * s2
-    matrix[:, 0, 2] = - c1 * s2
-    matrix[:, 1, 0] = s2 * s3
-    matrix[:, 1, 1] = c1 * c3 - s1 * c2 * s3
-    matrix[:, 1, 2] = s1 * c3 + c1 * c2 * s3
-    matrix[:, 2, 0] = s2 * c3
-    matrix[:, 2, 1] = - c1 * s3 - s1 * c2 * c3
-    matrix[:, 2, 2] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 0, 1] = c1 * s2
+    matrix[:, 0, 2] = s1 * s2
+    matrix[:, 1, 0] = - s2 * c3
+    matrix[:, 1, 1] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 1, 2] = c1 * s3 + s1 * c2 * c3
+    matrix[:, 2, 0] = s2 * s3
+    matrix[:, 2, 1] = - s1 * c3 - c1 * c2 * s3
+    matrix[:, 2, 2] = c1 * c3 - s1 * c2 * s3
 
     return matrix
diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index d3ad387..11735ab 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -1,6 +1,8 @@
 
 
-from celest.coordinates.astronomical_quantities import earth_rotation_angle
+from celest.coordinates.astronomical_quantities import (
+    greenwich_apparent_sidereal_angle
+)
 from celest.coordinates.frames.azel import AzEl
 from celest.coordinates.frames.gcrs import GCRS
 from celest.coordinates.frames.itrs import ITRS
@@ -61,7 +63,7 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     gcrs_z = gcrs.z.data.reshape((-1, 1))
     gcrs = np.concatenate((gcrs_x, gcrs_y, gcrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    gast = greenwich_apparent_sidereal_angle(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
@@ -70,20 +72,23 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     itrs = np.einsum('ijk, ik -> ij', precession_mtrx, itrs)
     itrs = np.einsum('ijk, ik -> ij', nutation_mtrx, itrs)
 
-    itrs = _rotate_by_earth_rotation_angle(itrs, -era)
+    itrs = _rotate_by_earth_rotation_angle(itrs, -gast)
 
     return ITRS(julian.data, itrs[:, 0], itrs[:, 1], itrs[:, 2], unit)
 
 
 def _rotate_by_earth_rotation_angle(data, degree_era):
-    """Rotate vectors about the z-axis by the Earth rotation angle.
+    """Rotate vectors about the z-axis by the Earth's rotation.
+
+    Since precession and nutation are taken with respect to the equinox, the
+    rotation is given by the Greenwich apparent sidereal angle.
 
     Parameters
     ----------
     data : np.ndarray
         2-D array containing columns of x, y, z coordinate data.
     degree_era : Quantity
-        The Earth rotation angles.
+        The angles of the Earth's rotation.
 
     Returns
     -------
@@ -141,12 +146,12 @@ def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
     itrs_z = itrs.z.data.reshape((-1, 1))
     itrs = np.concatenate((itrs_x, itrs_y, itrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    gast = greenwich_apparent_sidereal_angle(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
 
-    gcrs = _rotate_by_earth_rotation_angle(itrs, era)
+    gcrs = _rotate_by_earth_rotation_angle(itrs, gast)
 
     gcrs = np.einsum('ijk, ik -> ij', np.linalg.inv(nutation_mtrx), gcrs)
     gcrs = np.einsum('ijk, ik -> ij', np.linalg.inv(precession_mtrx), gcrs)
-- 
2.43.0


From a658533c76d4d8576e5c49cb081934130e1c037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:19 +0000
Subject: [PATCH 14/46] fix: Greenwich mean sidereal time uses a truncated
 constant

---
 celest/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..adaa3ed 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -2,7 +2,7 @@
 
 from celest.constants import (
     DAYS_IN_JULIAN_CENTURY,
-    ERA_AT_JD2000_DEG
+    GMST_AT_JD2000_DEG
 )
 from celest.coordinates.astronomical_quantities import (
     equation_of_time,
@@ -403,7 +403,7 @@ class Time:
 
         T1, T2, T3 = _calculate_raw_elapsed_jd_century_powers(self.julian, 3)
 
-        gmst = ERA_AT_JD2000_DEG + 360.98564736629 * T1 *\
+        gmst = GMST_AT_JD2000_DEG + 360.98564736629 * T1 *\
             DAYS_IN_JULIAN_CENTURY + 0.000387933 * T2 - T3 / 38710000
 
         return Quantity(gmst % 360 / 15, u.hourangle)
-- 
2.43.0


From 9e1f0f6ef1414ad5d417edfb0885949bea084ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:19 +0000
Subject: [PATCH 15/46] fix: Greenwich apparent sidereal time is not wrapped to
 24 hours

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index adaa3ed..4876332 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From 46bfef5c0227b4ddc7a0784039ca855e76252de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:47 +0000
Subject: [PATCH 16/46] fix: local sidereal times use the true Sun's right
 ascension

Local mean and apparent sidereal time were formed from the mean solar
hour angle and the true Sun's right ascension, which differ by the
equation of time (up to 16 minutes). Derive both from the Greenwich
sidereal time and the longitude.
---
 celest/time.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/celest/time.py b/celest/time.py
index 4876332..92fa9d4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -8,7 +8,6 @@ from celest.coordinates.astronomical_quantities import (
     equation_of_time,
     from_julian,
     _calculate_raw_elapsed_jd_century_powers,
-    sun_right_ascension,
     equation_of_equinoxes
 )
 from celest.units.quantity import Quantity
@@ -427,11 +426,10 @@ class Time:
         The Local Mean Sidereal Time can be calculated using the following
         formulation:
 
-        .. math:: LMST^h = h^h_{mSun} + \\alpha^h_{mSun}
+        .. math:: LMST^h = (GMST^h + \\phi^\\circ/15)\\%24
 
-        where :math:`h^h_{mSun}` is the mean solar hour angle at the observer's
-        longitude and :math:`\\alpha^h_{mSun}` is the right ascension of the
-        mean Sun position. [SL13e]_
+        where :math:`GMST^h` is the Greenwich Mean Sidereal Time and
+        :math:`\\phi` is the observer's longitude. [SL13e]_
 
         References
         ----------
@@ -442,13 +440,12 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).lmst(longitude=150)
-        Quantity(np.array([9.98419514, 16.62892539, 17.78123885]), Unit("hourangle"))
+        Quantity(np.array([9.95531596, 16.58939116, 17.72321416]), Unit("hourangle"))
         """
 
-        hour_angle = self.mean_hour_angle(longitude).to(u.hourangle)
-        right_ascension = sun_right_ascension(self.julian).to(u.hourangle)
+        gmst = self.gmst().to(u.hourangle)
 
-        return Quantity((hour_angle + right_ascension) % 24, u.hourangle)
+        return Quantity((gmst + np.array(longitude) / 15) % 24, u.hourangle)
 
     def gast(self) -> Quantity:
         """Return Greenwich Apparent Sidereal Time.
@@ -511,16 +508,11 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).last(longitude=150)
-        np.array([9.98447567,
-                  16.6286799,
-                  17.78148932])
+        np.array([9.9555965,
+                  16.58914567,
+                  17.72346463])
         """
 
-        ut1 = self.ut1().to(u.hourangle)
-        right_ascension_of_sun = sun_right_ascension(self.julian).to(u.hourangle)
-        eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
-
-        last = ut1 - 12 + right_ascension_of_sun + eqn_of_equinoxes +\
-            np.array(longitude) / 15
+        gast = self.gast().to(u.hourangle)
 
-        return Quantity(last % 24, u.hourangle)
+        return Quantity((gast + np.array(longitude) / 15) % 24, u.hourangle)
-- 
2.43.0


From 83a86edb82af50139948c621a25d0a452d0f854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 17/46] fix: Julian to calendar conversion uses wrong century
 length and Gregorian start

Meeus' algorithm uses 36524.25 days per Gregorian century and 2299161 as
the first Gregorian day; the code used 36525 and 2291161, giving dates
off by a day around some century years and wrong dates in 1560-1582.
Mixed arrays with dates before the threshold raised a broadcast error.
---
 celest/constants.py                           | 1 +
 celest/coordinates/astronomical_quantities.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/celest/constants.py b/celest/constants.py
index adc7920..79c04d3 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -3,6 +3,7 @@
 # Time constants.
 JD2000_DATE = 2451545
 DAYS_IN_JULIAN_CENTURY = 36525
+DAYS_IN_GREGORIAN_CENTURY = 36524.25
 DAYS_PER_YEAR = 365.25
 
 # Earth rotation constants.
diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 9682c6c..bc97d12 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -2,6 +2,7 @@
 
 from celest.constants import (
     JD2000_DATE,
+    DAYS_IN_GREGORIAN_CENTURY,
     DAYS_IN_JULIAN_CENTURY,
     DAYS_PER_YEAR,
     EARTH_ROTATION_RATE_DEG_PER_DAY,
@@ -403,9 +404,9 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    ind = np.where(a >= 2299161)[0]
+    alpha = ((a[ind] - 1867216.25) / DAYS_IN_GREGORIAN_CENTURY).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From 911f304ec462c4af518daa295863a36580413ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:46 +0000
Subject: [PATCH 18/46] fix: day of year treats Gregorian century years as leap
 years

---
 celest/coordinates/astronomical_quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index bc97d12..b3451e8 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -463,7 +463,8 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    is_century = (year > 1582) & (year % 100 == 0) & (year % 400 != 0)
+    K[np.where((year % 4 == 0) & ~is_century)] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From a35e62ee5c9ab7c88b6cc9bf7b1ee22368976ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:12 +0000
Subject: [PATCH 19/46] fix: generating windows fails for a satellite that is
 never visible

---
 celest/encounter/window_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..20cc0bf 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -79,6 +79,9 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     lighting_indices = _lighting_constraint_indices(julian, location, lighting)
     window_indices = np.intersect1d(window_indices, lighting_indices)
 
+    if window_indices.size == 0:
+        return WindowCollection()
+
     window_indices = np.split(window_indices,
                               np.where(np.diff(window_indices) != 1)[0] + 1)
     window_indices = np.array(window_indices, dtype=object)
-- 
2.43.0


From 30b48b873331e03bdf293be81f6df11867167fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 20/46] fix: window of a satellite visible at the first sample
 rises at the last sample

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 20cc0bf..5e49429 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -90,7 +90,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From 6456febb6b8291967ff8700d5d0e8f972c0bca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:26 +0000
Subject: [PATCH 21/46] fix: abandoned and nested iterations over a
 WindowCollection skip windows

The collection was its own iterator, so an iteration left with break made
the next one start in the middle and nested iterations shared a position.
---
 celest/encounter/window_handling.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..2d8f043 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -5,7 +5,7 @@ from celest.coordinates.ground_location import GroundLocation
 from celest.file_save import TextFileWriter
 from celest.units.quantity import Quantity
 from celest import units as u
-from typing import Union
+from typing import Iterator, Union
 import numpy as np
 
 
@@ -150,7 +150,6 @@ class WindowCollection:
 
     def __init__(self) -> None:
         self._window_data = []
-        self._current_window_index = 0
 
     def __str__(self) -> str:
         return str(self._window_data)
@@ -162,16 +161,8 @@ class WindowCollection:
     def __len__(self) -> int:
         return len(self._window_data)
 
-    def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
-
-    def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        if self._current_window_index < len(self._window_data):
-            self._current_window_index += 1
-            return self._window_data[self._current_window_index - 1]
-        else:
-            self._current_window_index = 0
-            raise StopIteration
+    def __iter__(self) -> Iterator[Union[VisibleTimeWindow, ObservationWindow]]:
+        return iter(self._window_data)
 
     def __getitem__(self, key) -> Union[list, VisibleTimeWindow,
                                         ObservationWindow]:
-- 
2.43.0


From bba5b9bb94a6243c8295f10116677424567bd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 22/46] fix: iterating over a RequestHandler skips the last
 request

Cost and completeness of a solution ignored the last request, so a
schedule missing it was reported complete and a generated schedule never
listed it.
---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From 2db8c9827de65636a6e3ef8eaf23a8ef33279581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:08 +0000
Subject: [PATCH 23/46] fix: overlap between visible time windows is wrong for
 nested and equal windows

A window inside another overlapped by the distance between the starts or
ends of the two, and equal windows had no overlap at all (None), which
broke conflict degrees.
---
 celest/schedule/request_handler.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..5b9ac32 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,6 @@
 
 
+from celest import units as u
 from enum import IntEnum
 
 
@@ -159,19 +160,10 @@ class RequestHandler:
         return not (vtw1.set_time < vtw2.rise_time) | (vtw2.set_time < vtw1.rise_time)
 
     def _julian_day_overlap_between_vtws(self, vtw1, vtw2) -> float:
-        s1, s2 = vtw1.rise_time, vtw2.rise_time
-        e1, e2 = vtw1.set_time, vtw2.set_time
-
-        if (e1 < s2) | (e2 < s1):
-            return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+        s1, s2 = vtw1.rise_time.to(u.jd2000), vtw2.rise_time.to(u.jd2000)
+        e1, e2 = vtw1.set_time.to(u.jd2000), vtw2.set_time.to(u.jd2000)
+
+        return max(0, min(e1, e2) - max(s1, s2))
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From 1b1e8ec17a6ed5fb8d4fb867c00f99b05b3f58b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:29 +0000
Subject: [PATCH 24/46] fix: sorting windows of equal conflict degree raises
 TypeError

Ties were broken by comparing the VisibleTimeWindow objects themselves.
---
 celest/schedule/request_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 5b9ac32..ecbe786 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -168,14 +168,15 @@ class RequestHandler:
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
             conflict_degree = []
-            vtw_indices = []
             vtw_list = self.requests[request_index][RequestIndices.vtw_list]
-            for vtw_index, vtw in enumerate(vtw_list):
+            for vtw in vtw_list:
                 conflict_degree.append(self._conflict_degree(vtw))
-                vtw_indices.append(vtw_index)
+
+            indices = sorted(range(len(vtw_list)),
+                             key=lambda index: conflict_degree[index])
 
             self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+                [vtw_list[index] for index in indices]
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-- 
2.43.0


From fe0b5ee7f004293fb398dc5124398c4353d86aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:49 +0000
Subject: [PATCH 25/46] fix: sorting windows leaves scheduled requests pointing
 at another window

The index of the visible time window a request is scheduled in was not
updated when the request's windows were reordered.
---
 celest/schedule/request_handler.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index ecbe786..25437f9 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -175,12 +175,20 @@ class RequestHandler:
             indices = sorted(range(len(vtw_list)),
                              key=lambda index: conflict_degree[index])
 
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw_list[index] for index in indices]
+            self._reorder_vtws(self.requests[request_index], indices)
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
-            )
+            vtw_list = request[RequestIndices.vtw_list]
+            indices = sorted(range(len(vtw_list)),
+                             key=lambda index: vtw_list[index].rise_time.data)
+
+            self._reorder_vtws(request, indices)
+
+    def _reorder_vtws(self, request, indices):
+        vtw_list = request[RequestIndices.vtw_list]
+        vtw_index = request[RequestIndices.vtw_index]
+
+        request[RequestIndices.vtw_list] = [vtw_list[index] for index in indices]
+        if vtw_index is not None:
+            request[RequestIndices.vtw_index] = indices.index(vtw_index)
-- 
2.43.0


From a8440e08038561985c8a415e3f5efb5bad0b60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 26/46] fix: rescheduling or unscheduling twice corrupts the
 scheduled request count

---
 celest/schedule/request_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 25437f9..b9e1a5d 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -60,23 +60,26 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests += 1
+
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
             self.unschedule_request(index)
-        self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests -= 1
+
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From 5b62a33950765f4afa695cfb87bb12e0b3e48522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 27/46] fix: random removal never removes the last request

When too few of the other requests were scheduled it ran out of choices
and raised IndexError.
---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..3e0996d 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(0, len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From 7ba153a724969f33be2caa112a7d173bec123723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:52 +0000
Subject: [PATCH 28/46] fix: search crashes when the cost is zero or changes
 sign

A zero initial cost gives a zero temperature and the acceptance
probability divided by zero; a cost of the other sign overflowed the
exponential. Use the magnitude and reject at zero temperature.
---
 celest/schedule/alns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..feb1f36 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -249,8 +249,11 @@ class ALNS:
         if temporary_cost < current_cost:
             return True
         else:
-            probability = math.exp(100 * (temporary_cost - current_cost) /
-                                   (T * current_cost))
+            scale = abs(T * current_cost)
+            if scale == 0:
+                return False
+            probability = math.exp(-100 * (temporary_cost - current_cost) /
+                                   scale)
             return False if random.random() > probability else True
 
     def _update_destroy_weights(self, l: float, score: int,
-- 
2.43.0


From c4abc2d451ebf7c23ca52b52bc9221ca93a0e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:16 +0000
Subject: [PATCH 29/46] fix: search crashes once all operator weights have
 decayed to zero

---
 celest/schedule/alns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index feb1f36..c641a18 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,7 +177,11 @@ class ALNS:
             list of probabilities.
         """
 
-        return [weight / sum(weights) for weight in weights]
+        total_weight = sum(weights)
+        if total_weight == 0:
+            return [1 / len(weights) for _ in weights]
+
+        return [weight / total_weight for weight in weights]
 
     def _get_repair_index(self) -> int:
         """Return index of the repair function to be used.
-- 
2.43.0


From 0ab1e8fe9f715a766383d293722929565f1cc499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:40 +0000
Subject: [PATCH 30/46] fix: operators improving on the current solution never
 get the better score

The candidate was compared with the current solution after replacing it,
and in the wrong direction.
---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index c641a18..45160a3 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From 24aa57080b8979be31d45cd6583c10a2deab81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 31/46] fix: scheduling a request with a look angle raises
 AttributeError

The insertion operators expect the look angle as a Quantity but the
scheduler stored the given number of degrees.
---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..89098a5 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            None if look_ang is None else Quantity(look_ang, u.deg),
             vtws
         )
 
-- 
2.43.0


From 49214ef078cfb823ca57553613984597a1777d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:46 +0000
Subject: [PATCH 32/46] fix: scheduled observation windows have an empty
 attitude

The sample at the start time was looked up by comparing a memory view
with a Quantity, which never matches. Use the sample nearest the start.
---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 89098a5..1cf21be 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                start_time = request[RequestIndices.scheduled_start_time]
+                attitude_idx = [np.argmin(np.abs(
+                    attitude.time.to(u.jd2000) - start_time.to(u.jd2000)
+                ))]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0


From d575e140f19c561e7384799cabd94ca46132837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:41 +0000
Subject: [PATCH 33/46] fix: saving a satellite without velocity raises
 AttributeError

---
 celest/satellite.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/celest/satellite.py b/celest/satellite.py
index ed273e8..a7a6c9a 100644
--- a/celest/satellite.py
+++ b/celest/satellite.py
@@ -262,24 +262,35 @@ class Satellite:
         """
 
         gcrs_position = _itrs_to_gcrs(self.position)
-        gcrs_velocity = _itrs_to_gcrs(self.velocity)
 
-        header = "Satellite Position and Velocity"
+        header = "Satellite Position"
         data = [
             ["Time", self.position.time],
             ["Itrs X", self.position.x],
             ["Itrs Y", self.position.y],
-            ["Itrs Z", self.position.z],
-            ["Itrs VX", self.velocity.x],
-            ["Itrs VY", self.velocity.y],
-            ["Itrs VZ", self.velocity.z],
+            ["Itrs Z", self.position.z]
+        ]
+        gcrs_data = [
             ["Gcrs X", gcrs_position.x],
             ["Gcrs Y", gcrs_position.y],
-            ["Gcrs Z", gcrs_position.z],
-            ["Gcrs VX", gcrs_velocity.x],
-            ["Gcrs VY", gcrs_velocity.y],
-            ["Gcrs VZ", gcrs_velocity.z]
+            ["Gcrs Z", gcrs_position.z]
         ]
+
+        if self.velocity is not None:
+            gcrs_velocity = _itrs_to_gcrs(self.velocity)
+
+            header += " and Velocity"
+            data += [
+                ["Itrs VX", self.velocity.x],
+                ["Itrs VY", self.velocity.y],
+                ["Itrs VZ", self.velocity.z]
+            ]
+            gcrs_data += [
+                ["Gcrs VX", gcrs_velocity.x],
+                ["Gcrs VY", gcrs_velocity.y],
+                ["Gcrs VZ", gcrs_velocity.z]
+            ]
+
         writer = TextFileWriter(file_name, header)
-        writer.add_layer(data=data)
+        writer.add_layer(data=data + gcrs_data)
         writer.save()
-- 
2.43.0


From 73185ae1cc23f89a7b7d6b963153d1429ee73ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:05 +0000
Subject: [PATCH 34/46] fix: dimension of a unit raised to a whole float power
 differs from the integer power

m ** 2.0 or (m ** 0.5) ** 4 had dimension L2.0 and could not be added to
or converted from m ** 2.
---
 celest/units/display.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index ece6581..379a168 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -64,7 +64,7 @@ def get_dimension_string(unit):
     dimensions, powers = get_dimensions_from_unit(unit)
 
     for dimension, power in zip(dimensions, powers):
-        unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
+        unit_string = dimension + _get_dimension_power_string(power)
         if power > 0:
             numerator_strings.append(unit_string)
         else:
@@ -79,6 +79,14 @@ def get_dimension_string(unit):
         return " ".join([numerator_string, "/", denominator_string])
 
 
+def _get_dimension_power_string(power):
+    if abs(power) == 1:
+        return ""
+
+    # Equal powers have equal strings whether integers or floats.
+    return str(abs(int(power) if power == int(power) else power))
+
+
 def get_dimensions_from_unit(unit):
     dimensions = []
     dimension_powers = []
-- 
2.43.0


From 70041bc2186ef552816ac9f03d15c47fd6de2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 35/46] fix: geographic conversion overflows for 32-bit integer
 positions

---
 celest/coordinates/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 11735ab..34faa67 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -236,9 +236,10 @@ def _geodetic_height_and_latitude(itrs: ITRS) -> Tuple[np.ndarray, np.ndarray]:
 
     tol = 10e-10
 
-    itrs_x = itrs.x.to(u.km)
-    itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
+    # Squares of narrow integer coordinates would overflow.
+    itrs_x = np.asarray(itrs.x.to(u.km), dtype=float)
+    itrs_y = np.asarray(itrs.y.to(u.km), dtype=float)
+    itrs_z = np.asarray(itrs.z.to(u.km), dtype=float)
 
     e = np.sqrt(1 - b ** 2 / a ** 2)
     p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
-- 
2.43.0


From 6f9204ffe4a88d23a896251c0cc95c0d99dbb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:22 +0000
Subject: [PATCH 36/46] fix: calendar conversion crashes for NumPy integer
 dates

---
 celest/coordinates/astronomical_quantities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index b3451e8..29e1752 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -398,10 +398,7 @@ def from_julian(julian: Quantity) -> Tuple:
     (1957, 10, 4.81)
     """
 
-    if isinstance(julian.to(u.jd2000), (float, int)):
-        jd = np.array([julian.to(u.jd2000)]) + 0.5
-    else:
-        jd = np.array(julian.to(u.jd2000)) + 0.5
+    jd = np.atleast_1d(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
     ind = np.where(a >= 2299161)[0]
-- 
2.43.0


From 3c67a884dedb5eb61b592feb823f18adbd2ead17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 37/46] fix: generating a schedule again keeps the previous
 greedy schedule

---
 celest/schedule/scheduler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 1cf21be..d289efc 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -146,6 +146,7 @@ class Scheduler(ALNS):
         if not self.request_handler.number_of_requests:
             raise Exception("No requests to schedule.")
 
+        self.request_handler.unschedule_all_requests()
         initialize_solution(self.request_handler)
         super().__init__(self.request_handler)
 
-- 
2.43.0


From 5d439d99c00feaafe8d56f29155715b0f888df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 38/46] fix: subtracting unsigned data in another unit does not
 wrap

---
 celest/units/quantity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 6ccf4d9..745bd29 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -117,6 +117,13 @@ class Quantity:
         return self.__add__(other)
 
     def __sub__(self, other):
+        if isinstance(other, Quantity):
+            # Negating unsigned integers before the conversion would wrap.
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for addition/subtraction.")
+            data = self._data - other.to(self._unit)
+            return Quantity(data, self._unit)
         return self.__add__(-other)
 
     def __rsub__(self, other):
-- 
2.43.0


From a78162148cac4451a803bd9d2650e22aa7db8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 39/46] fix: unsigned whole-number Julian dates before 2000 are
 not wrapped

---
 celest/constants.py | 2 +-
 celest/time.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/constants.py b/celest/constants.py
index 79c04d3..e767c39 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -1,7 +1,7 @@
 
 
 # Time constants.
-JD2000_DATE = 2451545
+JD2000_DATE = 2451545.0
 DAYS_IN_JULIAN_CENTURY = 36525
 DAYS_IN_GREGORIAN_CENTURY = 36524.25
 DAYS_PER_YEAR = 365.25
diff --git a/celest/time.py b/celest/time.py
index 92fa9d4..9681720 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -163,7 +163,7 @@ class Time:
         """
 
         eqn_of_time = equation_of_time(self.julian).to(u.deg).data
-        utc_time = 24 * (self._julian % 1) - 12
+        utc_time = 24.0 * (self._julian % 1) - 12
         true_solar_time = (utc_time + (np.array(longitude) + eqn_of_time) / 15) % 24
 
         return Quantity(true_solar_time, u.hourangle)
@@ -208,7 +208,7 @@ class Time:
         Quantity(np.array([10.830667]), Unit("hourangle"))
         """
 
-        utc_time = 24 * (self._julian % 1) - 12
+        utc_time = 24.0 * (self._julian % 1) - 12
         mean_solar_time = (utc_time + np.array(longitude) / 15) % 24
 
         return Quantity(mean_solar_time, u.hourangle)
-- 
2.43.0


From 6476f8aca5848a751c96788c9f39ba8342c35471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 40/46] fix: the orbital frame of narrow or unsigned integer
 positions does not overflow

---
 celest/coordinates/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 34faa67..08f168a 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -542,6 +542,10 @@ def _gcrs_to_lvlh_matrix(gcrs_position: np.ndarray, gcrs_velocity:
         3-D rotation matrix.
     """
 
+    # Products of narrow integer coordinates would overflow.
+    gcrs_position = np.asarray(gcrs_position, dtype=float)
+    gcrs_velocity = np.asarray(gcrs_velocity, dtype=float)
+
     norm_position = np.linalg.norm(gcrs_position, axis=1)
     position_cross_velocity = np.cross(gcrs_position, gcrs_velocity)
     norm_position_cross_velocity = np.linalg.norm(position_cross_velocity, axis=1)
-- 
2.43.0


From afd391e26d3f0120a4ddadfea9b5b37f4103a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:45 +0000
Subject: [PATCH 41/46] fix: the longitude of 16-bit integer positions keeps
 full precision

---
 celest/coordinates/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 08f168a..71a055a 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -184,8 +184,8 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
 
     julian = itrs.time.to(u.jd2000)
 
-    itrs_x = itrs.x.to(u.km)
-    itrs_y = itrs.y.to(u.km)
+    itrs_x = np.asarray(itrs.x.to(u.km), dtype=float)
+    itrs_y = np.asarray(itrs.y.to(u.km), dtype=float)
 
     height, latitude = _geodetic_height_and_latitude(itrs)
     longitude = np.arctan2(itrs_y, itrs_x)
-- 
2.43.0


From 851726eb03e51e407a23f885d5dcdaedb52adb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 42/46] fix: fractional powers of units that cancel or add up
 except for rounding

---
 celest/units/core.py    | 3 ++-
 celest/units/display.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 9a0c2fb..d9824c9 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -267,7 +267,8 @@ class CompoundUnit(BaseUnit):
         def handle_repeated_units(repeated_base, repeated_power):
             index = bases.index(repeated_base)
             new_power = powers[index] + repeated_power
-            if not new_power:
+            # Sums of fractional powers cancel only up to rounding.
+            if abs(new_power) < 1e-12:
                 bases.pop(index)
                 powers.pop(index)
             else:
diff --git a/celest/units/display.py b/celest/units/display.py
index 379a168..b3c3a49 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -80,6 +80,8 @@ def get_dimension_string(unit):
 
 
 def _get_dimension_power_string(power):
+    # Equal fractional powers can differ in rounding.
+    power = round(power, 12)
     if abs(power) == 1:
         return ""
 
@@ -95,7 +97,8 @@ def get_dimensions_from_unit(unit):
         if dimension in dimensions:
             dimension_index = dimensions.index(dimension)
             new_power = dimension_powers[dimension_index] + power
-            if new_power == 0:
+            # Sums of fractional powers cancel only up to rounding.
+            if abs(new_power) < 1e-12:
                 dimensions.pop(dimension_index)
                 dimension_powers.pop(dimension_index)
             else:
-- 
2.43.0


From 1c70536d0a531bf631b0116e786c19ae0ca925b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 43/46] fix: saving data without samples fails on the width of
 empty columns

---
 celest/file_save.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..6b31530 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -211,6 +211,8 @@ def _get_column_information(label: str, value: Any, value_format:
 
 
 def _get_maximum_value_width(value: Any, value_format: str) -> int:
+    if np.size(value.data if isinstance(value, Quantity) else value) == 0:
+        return 0
     if isinstance(value, Quantity):
         return len(value_format % np.max(value.data))
     elif isinstance(value, np.ndarray):
-- 
2.43.0


From 6c9c6a56e911b0e3f20fe91f3b7ae228cb15b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 44/46] fix: geographic positions in whole radians of narrow
 integers keep full precision

---
 celest/coordinates/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 71a055a..7a15392 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -300,8 +300,8 @@ def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
 
     julian = wgs84.time.to(u.jd2000)
 
-    latitude = wgs84.latitude.to(u.rad)
-    longitude = wgs84.longitude.to(u.rad)
+    latitude = np.asarray(wgs84.latitude.to(u.rad), dtype=float)
+    longitude = np.asarray(wgs84.longitude.to(u.rad), dtype=float)
     height = wgs84.height.to(u.km)
 
     e = WGS83_FIRST_ECCENTRICITY
-- 
2.43.0


From cb2bb6bb2d1dc21d2371ef0821e60856b583910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 45/46] fix: converting between units that share a name and
 differ in size

---
 celest/units/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 745bd29..4267681 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -314,7 +314,9 @@ class Quantity:
 
         data = deepcopy(self._data)
 
-        if repr(self._unit) != repr(new_unit):
-            data = data * (_get_unit_scale(self._unit) / _get_unit_scale(new_unit))
+        # Units defined by the user can share a name and differ in size.
+        scale, new_scale = _get_unit_scale(self._unit), _get_unit_scale(new_unit)
+        if repr(self._unit) != repr(new_unit) or scale != new_scale:
+            data = data * (scale / new_scale)
 
         return Quantity(data, new_unit)
-- 
2.43.0


From 6e1b530beb3f2516c402b29e674680d19f2fe602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 46/46] fix: location printed wrongly for the narrow integer
 longitude -128

---
 celest/angle_strings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index 0bd57ab..8149622 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -33,7 +33,7 @@ def _ISO6709_representation(latitude: Quantity, longitude: Quantity, height:
 
 
 def _get_latitude_string(latitude: Quantity) -> str:
-    sexigesimal_latitude = _get_sexagesimal_string(abs(latitude.to(u.deg)))
+    sexigesimal_latitude = _get_sexagesimal_string(abs(float(latitude.to(u.deg))))
     direction = "N" if latitude.data >= 0 else "S"
 
     return sexigesimal_latitude + direction
@@ -68,7 +68,7 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
 
 
 def _get_longitude_string(longitude: Quantity) -> str:
-    sexigesimal_longitude = _get_sexagesimal_string(abs(longitude.to(u.deg)))
+    sexigesimal_longitude = _get_sexagesimal_string(abs(float(longitude.to(u.deg))))
     direction = "E" if longitude.data >= 0 else "W"
 
     return sexigesimal_longitude + direction
-- 
2.43.0

