From 439de2aec44aa4eb85a4ab0d038408f8f85f03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 01/26] fix: raise the documented ValueError for a non-numeric
 dtype

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..7823bce 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1137,7 +1137,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From 5e25d8af67134c20f0129e809420784db2068117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 02/26] fix: reject negative point and segment indices below
 -size

---
 skcurve/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 7823bce..ff1ead5 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -403,6 +403,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __init__(self, curve: 'Curve', index: int):
         if index < 0:
             index = curve.size + index
+        if index < 0:
+            raise IndexError('The index is out of curve size')
 
         self._curve = curve
         self._idx = index
@@ -929,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From 19558acc727c63bb37b0c9a5210add6e67337205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 03/26] fix: Curve.index returns the point index for a negative
 start

---
 skcurve/_base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index ff1ead5..10d9591 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1381,10 +1381,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         self._check_ndim(point)
 
-        if start is None and end is None:
-            data = self._data
-        else:
-            data = self._data[slice(start, end)]
+        start, end, _ = slice(start, end).indices(self.size)
+        data = self._data[start:end]
 
         is_close = allequal(point.data, data, axis=1)
 
@@ -1393,10 +1391,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         indices = np.flatnonzero(is_close)
 
-        if start:
-            indices += start
-
-        return indices[0]
+        return indices[0] + start
 
     def count(self, point: Point) -> int:
         """Returns the number of inclusions given point in the curve
-- 
2.43.0


From 69fde5d2725b22ecd54c7c356415d49d4a4ae0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 04/26] fix: chord and arc lengths of an empty curve are not
 uninitialized memory

---
 skcurve/_diffgeom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..ecaadd2 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,7 +86,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.array([], dtype=np.float64)
 
     return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
 
@@ -237,6 +237,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.array([], dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From d4c85cbcb5e3aee20cb380446444f015950253d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 05/26] fix: the gradient of an empty or single-point curve has
 the shape of the data

---
 skcurve/_diffgeom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index ecaadd2..1706716 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -137,7 +137,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     m_rows = data.shape[0]
 
     if m_rows == 0:
-        return np.array([], dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     for edge_order in range(edge_order, 0, -1):
         if m_rows < (edge_order + 1):
@@ -149,7 +149,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
-- 
2.43.0


From 2a315b788163082cde40fcf2e002e49df35b7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 06/26] fix: collinearity of points does not depend on the
 position of the origin

---
 skcurve/_geomalg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..fa1f6e0 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the coordinates of their differences is of rank 1 or less.
 
     Parameters
     ----------
@@ -225,7 +225,12 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if m.shape[1] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    if tol is None:
+        # The rounding errors of the coords are proportional to their magnitudes
+        tol = np.max(np.abs(m)) * max(m.shape) * F_EPS
+
+    # The points are collinear if and only if all their differences are
+    return np.linalg.matrix_rank(m[:, 1:] - m[:, :1], tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 17eaf12d8227f9127e6ed1044af8f3914eb2564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 07/26] fix: the overlap of segments lies on the segments for
 any direction of the line

---
 skcurve/_geomalg.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index fa1f6e0..0bf066a 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -306,8 +306,15 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
-    return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
-                                 p2=skcurve._base.Point(data_minmax))
+    # The overlap is the diagonal of the bounding box that is directed along the segments
+    direction = p12_data - p11_data
+    direction_sign = np.sign(direction[np.flatnonzero(direction)[:1]]).sum()
+    is_reversed = direction * direction_sign < 0
+
+    return skcurve._base.Segment(
+        p1=skcurve._base.Point(np.where(is_reversed, data_minmax, data_maxmin)),
+        p2=skcurve._base.Point(np.where(is_reversed, data_maxmin, data_minmax)),
+    )
 
 
 def segment_to_point(segment: 'Segment', point: 'Point') -> float:
-- 
2.43.0


From ed5e84f6ae12073828ffa35143c3489a3c23b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 08/26] fix: the shortest segments between parallel, short and
 singular segments

---
 skcurve/_base.py      |  6 +++---
 skcurve/_geomalg.py   | 38 +++++++++++++++++++-------------------
 skcurve/_intersect.py |  4 ++--
 skcurve/_numeric.py   |  3 +++
 4 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 10d9591..ed889e7 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -31,7 +31,7 @@ import skcurve._geomalg as _geomalg
 import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
-from skcurve._numeric import allequal, F_EPS
+from skcurve._numeric import allequal, PARALLEL_TOL
 from skcurve._utils import as2d
 
 
@@ -693,7 +693,7 @@ class Segment:
 
         return _geomalg.segments_angle(self, other, ndigits=ndigits)
 
-    def parallel(self, other: 'Segment', tol: float = F_EPS) -> bool:
+    def parallel(self, other: 'Segment', tol: float = PARALLEL_TOL) -> bool:
         """Returns True if the segment and other segment are parallel
 
         Parameters
@@ -701,7 +701,7 @@ class Segment:
         other : Segment
             Other segment
         tol : float
-            Epsilon. It is a small float number. By default float64 eps
+            Threshold for squared sine of the angle between the segments. It is a small float number
 
         Returns
         -------
diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 0bf066a..b2db149 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -12,7 +12,7 @@ import typing as ty
 import numpy as np
 
 import skcurve._base
-from skcurve._numeric import F_EPS
+from skcurve._numeric import F_EPS, PARALLEL_TOL
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment  # noqa
@@ -160,7 +160,7 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
     return np.arccos(cos_phi)
 
 
-def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_EPS) -> bool:
+def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = PARALLEL_TOL) -> bool:
     """Returns True if two segments are parallel
 
     Parameters
@@ -170,7 +170,7 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
     segment2 : Segment
         The second segment
     tol : float
-        Epsilon. It is a small float number. By default float64 eps
+        Threshold for squared sine of the angle between the segments. It is a small float number
 
     Returns
     -------
@@ -188,7 +188,7 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
 
     d = a * c - b * b
 
-    return d < tol
+    return d <= tol * a * c
 
 
 def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
@@ -351,7 +351,7 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
     return t
 
 
-def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_EPS) -> ty.Tuple[float, float]:
+def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = PARALLEL_TOL) -> ty.Tuple[float, float]:
     """Computes the shortest segment between two segments
 
     Parameters
@@ -361,7 +361,7 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     segment2 : Segment
         The second segment object
     tol : float
-        Epsilon. It is a small float number. By default float64 eps
+        Threshold for squared sine of the angle between the segments. It is a small float number
 
     Returns
     -------
@@ -391,7 +391,7 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     sd = td = dd
 
     # Compute the line parameters of the two closest points
-    if dd < tol:
+    if dd <= tol * a * c:
         # the lines are almost parallel
         sn, sd = 0.0, 1.0
         tn, td = e, c
@@ -420,8 +420,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
         else:
             sn = -d
             sd = a
-    elif tn > td:
-        # tc > 1  => the t=1 edge is visible
+    elif tn >= td:
+        # tc >= 1  => the t=1 edge is visible
         tn = td
         # recompute sc for this edge
         if (-d + b) < 0.0:
@@ -433,8 +433,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             sd = a
 
     # finally do the division to get sc and tc
-    t1 = 0.0 if np.abs(sn) < tol else sn / sd
-    t2 = 0.0 if np.abs(tn) < tol else tn / td
+    t1 = 0.0 if sn == 0 else sn / sd
+    t2 = 0.0 if tn == 0 else tn / td
 
     return t1, t2
 
@@ -447,7 +447,7 @@ SegmentsToSegmentsResult = ty.NamedTuple('SegmentsToSegmentsResult', [
 ])
 
 
-def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EPS) -> SegmentsToSegmentsResult:
+def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = PARALLEL_TOL) -> SegmentsToSegmentsResult:
     """Computes the shortest segments between all segment pairs from two segment sets
 
     Computes the shortest segments between all segment pairs and returns M1xM2 matrices for t1 and t2 parameters.
@@ -459,7 +459,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     data2 : np.ndarray
         The second M2xN data
     tol : float
-        Tolerance
+        Threshold for squared sine of the angle between the segments. It is a small float number
 
     Returns
     -------
@@ -507,7 +507,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn = np.zeros_like(dd)
     tn = np.zeros_like(dd)
 
-    dd_lt_tol = dd < tol
+    dd_lt_tol = dd <= tol * a * c
     not_dd_lt_tol = ~dd_lt_tol
 
     sd[dd_lt_tol] = 1.0
@@ -544,7 +544,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn[md_else] = -d[md_else]
     sd[md_else] = a[md_else]
 
-    tn_gt_td = tn > td
+    tn_gt_td = (tn >= td) & ~tn_lt_zero
     tn[tn_gt_td] = td[tn_gt_td]
 
     bmd = b - d
@@ -558,14 +558,14 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn[bmd_else] = bmd[bmd_else]
     sd[bmd_else] = a[bmd_else]
 
-    abs_sn_gt_tol = ~(np.abs(sn) < tol)
-    abs_tn_gt_tol = ~(np.abs(tn) < tol)
+    sn_nonzero = sn != 0
+    tn_nonzero = tn != 0
 
     t1 = np.zeros_like(dd)
     t2 = np.zeros_like(dd)
 
-    t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]
-    t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]
+    t1[sn_nonzero] = sn[sn_nonzero] / sd[sn_nonzero]
+    t2[tn_nonzero] = tn[tn_nonzero] / td[tn_nonzero]
 
     p1 = p11 + t1 * u
     p2 = p21 + t2 * v
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..1df09c9 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -27,7 +27,7 @@ from scipy.spatial.distance import pdist, squareform
 
 import skcurve._base
 from skcurve import _geomalg
-from skcurve._numeric import F_EPS
+from skcurve._numeric import F_EPS, PARALLEL_TOL
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment, Curve  # noqa
@@ -624,7 +624,7 @@ class AlmostIntersectionMethod(IntersectionMethodBase):
                  remove_extra: bool = False,
                  extra_tol: float = 1e-3,
                  correct_overlap: bool = False,
-                 parallel_tol: float = F_EPS) -> None:
+                 parallel_tol: float = PARALLEL_TOL) -> None:
         self._dist_tol = dist_tol
         self._remove_extra = remove_extra
         self._extra_tol = extra_tol
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..b6e6028 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -11,6 +11,9 @@ import numpy as np
 
 F_EPS = np.finfo(np.float64).eps
 
+# Relative to squared lengths of the vectors, exceeds the rounding errors of their dot products
+PARALLEL_TOL = 16 * F_EPS
+
 
 def isequal(obj1: np.ndarray, obj2: np.ndarray, **kwargs) -> np.ndarray:
     """Returns a boolean array where two arrays are element-wise equal
-- 
2.43.0


From a633809553f8fba62f1434b5264fd242c03e9352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 09/26] fix: the distance from a short segment to a point

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index b2db149..f7e1383 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -339,12 +339,12 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
 
     c1 = to_point_direction @ segment_direction
 
-    if c1 < 0 or np.isclose(c1, 0):
+    if c1 <= 0:
         return 0.0
 
     c2 = segment_direction @ segment_direction
 
-    if c2 < c1 or np.isclose(c2, c1):
+    if c2 <= c1:
         return 1.0
 
     t = c1 / c2
-- 
2.43.0


From 32403d36f2afbf89660235469355f13a0b529e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 10/26] fix: nonsingular removes coincident points around
 removed NaN and Inf points

---
 skcurve/_diffgeom.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 1706716..42f4fe8 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -57,13 +57,14 @@ def nonsingular(curve: 'Curve'):
 
     """
 
-    chord_lengths = curve.chordlen
+    curve = curve.drop(lambda curve_data: np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1))
+
+    if not curve:
+        return curve
 
-    def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+    chord_lengths = curve.chordlen
 
-    return curve.drop(is_singular)
+    return curve.drop(lambda curve_data: np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
 
 
 def chordlen(curve: 'Curve') -> np.ndarray:
-- 
2.43.0


From 07acdf0da3e631938fd785ece15fe2a5d08cf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 11/26] fix: smoothing keeps the given window and returns
 float64 curves for any dtype

---
 skcurve/_smooth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..20b48a8 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -167,10 +167,10 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / window.sum()
 
     return ndimage.convolve1d(
-        curve.data,
+        curve.data.astype(np.float64),
         weights=window,
         mode=mode,
         cval=cval,
@@ -216,4 +216,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


From 7563e8c23d21cd3aeca1fefc26210e0348f6ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 12/26] fix: registering decorators return the registered
 object

---
 skcurve/_interpolate.py | 1 +
 skcurve/_intersect.py   | 2 ++
 skcurve/_smooth.py      | 1 +
 3 files changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..5c9be25 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -394,6 +394,7 @@ def register_interpolator(method: str):
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index 1df09c9..63708fe 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -435,6 +435,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 20b48a8..1e7cc65 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -71,6 +71,7 @@ def register_smooth_method(method: str):
             raise ValueError(
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
+        return method_callable
 
     return decorator
 
-- 
2.43.0


From c4bde570559456e3b4d32159081f3a7630ad9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 13/26] fix: IntersectionType.NONE can be called without data

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index 63708fe..da5c976 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From ac699d00e996bbcfea406084f3a8e4f96c7c4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 14/26] fix: Segment.t for the list with a single non-collinear
 point

---
 skcurve/_geomalg.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index f7e1383..929bd41 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -103,17 +103,14 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
             f"The 'lstsq' residuals are {residuals}. 't' value(s) might be wrong.",
             GeometryAlgorithmsWarning)
 
-    t = t.squeeze()
-
     if is_collinear.size == 0:
-        return float(t)
+        return float(t.squeeze())
     else:
+        t = t.reshape(-1)
         if not np.all(is_collinear):
             warnings.warn(
                 "Some given points are not collinear with the segment", GeometryAlgorithmsWarning)
             t[~is_collinear] = np.nan
-        if t.size == 1:
-            t = np.array(t, ndmin=1)
         return t
 
 
-- 
2.43.0


From bd1b2e68001f7651365d768fd87d41decf818b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 15/26] fix: three or fewer points are coplanar

---
 skcurve/_geomalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 929bd41..c22607f 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -257,6 +257,10 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         # In dimension < 3 the points are coplanar
         return True
 
+    if points_data.shape[0] < 4:
+        # Three or fewer points are always coplanar
+        return True
+
     # Relative differences
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
-- 
2.43.0


From 63bf8a891384234336792920954369a8c42723c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 16/26] fix: the angle between short segments is defined

---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index c22607f..ccc9520 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -139,7 +139,7 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
 
     denominator = u1.norm() * u2.norm()
 
-    if np.isclose(denominator, 0.0):
+    if denominator == 0.0:
         warnings.warn(
             'Cannot compute angle between segments. One or both segments degenerate into a point.',
             GeometryAlgorithmsWarning)
-- 
2.43.0


From 3aabb42365eb2fb6cef7275291835d72f59cdb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 17/26] fix: the uniform grid with chords longer than the curve
 covers the curve

---
 skcurve/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5c9be25..94129ba 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -128,7 +128,7 @@ class UniformInterpolationGrid(InterpolationGrid):
             raise ValueError(f'The curve size {curve.size} is too few')
 
         if self.kind == 'length':
-            pcount = int(round(curve.arclen / self.fill) + 1)
+            pcount = max(int(round(curve.arclen / self.fill) + 1), 2)
         else:
             pcount = int(self.fill)
 
-- 
2.43.0


From 415f4ebaa364fc01b5c15b214b5c4dcf1a2bfdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 18/26] fix: as2d rejects negative axis that is out of the
 array shape

---
 skcurve/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..fa660e6 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -35,7 +35,7 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     orig_axis = axis
     axis = arr.ndim + axis if axis < 0 else axis
 
-    if axis >= arr.ndim:
+    if axis < 0 or axis >= arr.ndim:
         raise ValueError(f'axis {orig_axis} is out of array shape {arr.shape}.')
 
     tr_axes = list(range(arr.ndim))
-- 
2.43.0


From b70b18985574c0b995a56b39deec313f0389a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 19/26] fix: empty sub-curves and copies of empty curves keep
 the curve dimension

---
 skcurve/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index ed889e7..1f0b07d 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1141,6 +1141,10 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if not np.issubdtype(dtype, np.number):
             raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
+        if is_array and axis == 0 and curve_data.ndim == 2 and curve_data.shape[0] == 0:
+            # Keep the dimension of an empty curve
+            ndmin = max(ndmin, curve_data.shape[1])
+
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
-- 
2.43.0


From 63d3fd8327f647dd04d56e96faff986ba1220c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 20/26] fix: hermite interpolation of a parametric curve uses
 derivatives with respect to t

---
 skcurve/_interpolate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 94129ba..b5e78cc 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -495,8 +495,14 @@ class CubicHermiteSplineInterpolator(InterpolatorBase):
     def __init__(self, curve: 'Curve', *, extrapolate: ty.Optional[ty.Union[bool, str]] = None):
         super().__init__(curve)
 
+        if curve.isparametric:
+            # The unit tangent is the derivative with respect to arc length only
+            deriv = np.gradient(curve.data, curve.t, axis=0)
+        else:
+            deriv = curve.frenet1
+
         self.spline = interp.CubicHermiteSpline(
-            curve.t, curve.data, curve.frenet1, axis=0, extrapolate=extrapolate)
+            curve.t, curve.data, deriv, axis=0, extrapolate=extrapolate)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
         return self.spline(grid)
-- 
2.43.0


From 0483837caf821e581a84ba7b989c450a9d040dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 21/26] fix: an empty curve is interpolated to an empty curve
 and a single point is rejected by every method

---
 skcurve/_interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index b5e78cc..28282fa 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -729,5 +729,9 @@ def interpolate(curve: 'Curve', grid_spec: InterpGridSpecType, method: str, **pa
 
     """
 
+    if method in _interpolators and curve.size < 2:
+        # The method interpolators cannot be created for an empty curve or a single point
+        return InterpolatorBase(curve)(grid_spec)
+
     interpolator = get_interpolator(method, curve, **params)
     return interpolator(grid_spec)
-- 
2.43.0


From 50204ea6e6e801ecf6b1746147b4ed69a405c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 22/26] fix: the Akima interpolation of two points used
 uninitialized slopes

---
 skcurve/_interpolate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 28282fa..3a9aa3f 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -531,7 +531,11 @@ class AkimaInterpolator(InterpolatorBase):
 
     def __init__(self, curve: 'Curve'):
         super().__init__(curve)
-        self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
+        if curve.size > 2:
+            self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
+        else:
+            # Akima1DInterpolator reads uninitialized slopes if there are two points only
+            self.akima = interp.interp1d(curve.t, curve.data, kind='linear', axis=0, bounds_error=False)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
         return self.akima(grid)
-- 
2.43.0


From bb0c6e84a54e8edddeef2084a23ca1f74abe8856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 23/26] fix: csaps interpolation returned transposed values
 when the grid size equals the curve dimension

---
 skcurve/_interpolate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 3a9aa3f..643a434 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -642,11 +642,12 @@ class CsapsInterpolator(InterpolatorBase):
                  smooth: ty.Optional[float] = 1.0,
                  weights: ty.Optional[np.ndarray] = None):
         super().__init__(curve)
+        # csaps returns the transposed values for "axis=0" if the grid size is equal to the curve dimension
         self.csaps = csaps.CubicSmoothingSpline(
-            curve.t, curve.data, weights=weights, smooth=smooth, axis=0)
+            curve.t, curve.data.T, weights=weights, smooth=smooth, axis=-1)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
-        return self.csaps(grid)
+        return self.csaps(grid).T
 
 
 def interp_methods() -> ty.List[str]:
-- 
2.43.0


From 039449379a2a63078d289055aac5aa6aedf8e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 24/26] fix: the collinearity tolerance covers the rounding
 errors of the differences of points

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index ccc9520..1458a4a 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -223,8 +223,8 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
         return True
 
     if tol is None:
-        # The rounding errors of the coords are proportional to their magnitudes
-        tol = np.max(np.abs(m)) * max(m.shape) * F_EPS
+        # The rounding errors of the coords and their differences are proportional to the norm
+        tol = 2 * np.linalg.norm(m) * max(m.shape) * F_EPS
 
     # The points are collinear if and only if all their differences are
     return np.linalg.matrix_rank(m[:, 1:] - m[:, :1], tol=tol) <= 1
-- 
2.43.0


From 53d131570379c07405e4e8a6de891df70339e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 25/26] fix: the bounding-box filter of the exact intersection
 lost intersections at the tolerance of the segment ends

---
 skcurve/_intersect.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index da5c976..ce7dfdf 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -565,6 +565,8 @@ class ExactIntersectionMethod(IntersectionMethodBase):
         curve1_pmin = np.minimum(p11, p12)
         curve1_pmax = np.maximum(p11, p12)
 
+        curve1_pmin, curve1_pmax = self._extend_bbox(curve1_pmin, curve1_pmax)
+
         if self_intersect:
             curve2_pmin = curve1_pmin
             curve2_pmax = curve1_pmax
@@ -575,6 +577,8 @@ class ExactIntersectionMethod(IntersectionMethodBase):
             curve2_pmin = np.minimum(p21, p22)
             curve2_pmax = np.maximum(p21, p22)
 
+            curve2_pmin, curve2_pmax = self._extend_bbox(curve2_pmin, curve2_pmax)
+
         # Find overlapping between all curve1 segment bboxes and curve2 segment
         # bboxes by all coordinates using vectorization
         curve1_pmin_tr = curve1_pmin[np.newaxis].transpose(2, 1, 0)
@@ -591,6 +595,16 @@ class ExactIntersectionMethod(IntersectionMethodBase):
         s1, s2 = self._curves_intersect_indices(is_intersect, self_intersect)
         return s1, s2
 
+    @staticmethod
+    def _extend_bbox(pmin: np.ndarray, pmax: np.ndarray) -> ty.Tuple[np.ndarray, np.ndarray]:
+        """Extends AABB because the intersection of segments accepts points slightly beyond the segments ends
+
+        The tolerance for the ends is the tolerance of `np.isclose`.
+        """
+
+        margin = 2e-5 * (pmax - pmin)
+        return pmin - margin, pmax + margin
+
 
 @register_intersect_method(method='almost')
 class AlmostIntersectionMethod(IntersectionMethodBase):
-- 
2.43.0


From 41b2ca9e065cdb9bcda9ebbcb174be004c3bb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 26/26] fix: integer arithmetic of coordinates overflowed in
 lengths, point operations, metrics and intersections

---
 skcurve/_base.py      |  9 +++++----
 skcurve/_diffgeom.py  |  4 ++--
 skcurve/_geomalg.py   | 14 +++++++++-----
 skcurve/_intersect.py |  4 ++--
 skcurve/_numeric.py   | 21 +++++++++++++++++++++
 5 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 1f0b07d..0c28df0 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -31,7 +31,7 @@ import skcurve._geomalg as _geomalg
 import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
-from skcurve._numeric import allequal, PARALLEL_TOL
+from skcurve._numeric import allequal, as_inexact, PARALLEL_TOL
 from skcurve._utils import as2d
 
 
@@ -269,7 +269,7 @@ class Point(abc.Sequence):
         if not isinstance(other, Point):
             return NotImplemented
 
-        return ty.cast(Numeric, np.dot(self._data, other.data))
+        return ty.cast(Numeric, np.dot(as_inexact(self._data), as_inexact(other.data)))
 
     def __copy__(self) -> 'Point':
         return self.__deepcopy__()
@@ -353,6 +353,7 @@ class Point(abc.Sequence):
 
         if isinstance(metric, str):
             metric = _distance.get_metric(metric, **kwargs)
+            return metric(as_inexact(self._data), as_inexact(other.data))
 
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
@@ -360,10 +361,10 @@ class Point(abc.Sequence):
         return metric(self._data, other.data)
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
-        left_data = self._data
+        left_data = as_inexact(self._data)
 
         if isinstance(other, Point):
-            right_data = other.data
+            right_data = as_inexact(other.data)
         elif isinstance(other, numbers.Number):
             right_data = other
         else:
diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 42f4fe8..04743e7 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -23,7 +23,7 @@ import numpy as np
 
 from cached_property import cached_property
 
-from skcurve._numeric import dot1d
+from skcurve._numeric import as_inexact, dot1d
 import skcurve._base
 
 if ty.TYPE_CHECKING:
@@ -89,7 +89,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     if not curve:
         return np.array([], dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    return np.sqrt(np.sum((np.diff(as_inexact(curve.data), axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 1458a4a..3a81df4 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -12,7 +12,7 @@ import typing as ty
 import numpy as np
 
 import skcurve._base
-from skcurve._numeric import F_EPS, PARALLEL_TOL
+from skcurve._numeric import F_EPS, PARALLEL_TOL, as_inexact
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment  # noqa
@@ -88,11 +88,11 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
                 f"Given point '{point}' is not collinear with the segment '{segment}'",
                 GeometryAlgorithmsWarning)
             return np.nan
-        b = point.data - segment.p1.data
+        b = as_inexact(point.data) - segment.p1.data
         is_collinear = np.asarray([])
     else:
         is_collinear = np.array([segment.collinear(p, tol=tol) for p in point], dtype=np.bool_)
-        b = np.stack([p.data - segment.p1.data for p in point], axis=1)
+        b = np.stack([as_inexact(p.data) - segment.p1.data for p in point], axis=1)
 
     a = segment.direction.data[np.newaxis].T
 
@@ -217,7 +217,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points]).T
 
-    m = np.unique(points_data, axis=1)
+    m = np.unique(as_inexact(points_data), axis=1)
 
     if m.shape[1] < 3:
         return True
@@ -262,6 +262,7 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         return True
 
     # Relative differences
+    points_data = as_inexact(points_data)
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
 
@@ -308,7 +309,7 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
         return None
 
     # The overlap is the diagonal of the bounding box that is directed along the segments
-    direction = p12_data - p11_data
+    direction = as_inexact(p12_data) - p11_data
     direction_sign = np.sign(direction[np.flatnonzero(direction)[:1]]).sum()
     is_reversed = direction * direction_sign < 0
 
@@ -482,6 +483,9 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = PARA
 
     """
 
+    data1 = as_inexact(data1)
+    data2 = as_inexact(data2)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index ce7dfdf..cebb586 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -27,7 +27,7 @@ from scipy.spatial.distance import pdist, squareform
 
 import skcurve._base
 from skcurve import _geomalg
-from skcurve._numeric import F_EPS, PARALLEL_TOL
+from skcurve._numeric import F_EPS, PARALLEL_TOL, as_inexact
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment, Curve  # noqa
@@ -602,7 +602,7 @@ class ExactIntersectionMethod(IntersectionMethodBase):
         The tolerance for the ends is the tolerance of `np.isclose`.
         """
 
-        margin = 2e-5 * (pmax - pmin)
+        margin = 2e-5 * (as_inexact(pmax) - pmin)
         return pmin - margin, pmax + margin
 
 
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index b6e6028..ee1f799 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -70,6 +70,27 @@ def allequal(obj1: np.ndarray, obj2: np.ndarray, axis: ty.Optional[int] = None,
     return np.all(isequal(obj1, obj2, **kwargs), axis=axis)
 
 
+def as_inexact(data: np.ndarray) -> np.ndarray:
+    """Returns integer data as floating point data because integer arithmetic may overflow
+
+    Parameters
+    ----------
+    data : np.ndarray
+        Numeric data
+
+    Returns
+    -------
+    data : np.ndarray
+        The same data if it is not integer, or its floating point copy
+
+    """
+
+    if np.issubdtype(data.dtype, np.integer):
+        return data.astype(np.float64)
+
+    return data
+
+
 def dot1d(data1: np.ndarray, data2: np.ndarray) -> np.ndarray:
     """Computes row-wise dot product of two MxN arrays
 
-- 
2.43.0

