#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
B='skcurve/_base.py'; G='skcurve/_geomalg.py'; I='skcurve/_intersect.py'; D='skcurve/_diffgeom.py'
IN='skcurve/_interpolate.py'; S='skcurve/_smooth.py'; N='skcurve/_numeric.py'; U='skcurve/_utils.py'
DI='skcurve/_distance.py'; CU='skcurve/curves.py'

prop('C01','Points, segments and curves are immutable and isolated from caller data',
 "No public operation on a point, segment or curve changes the coordinates, parameter vector or dtype of its receiver or of any argument, including plain arrays, index arrays, masks, grids, weights and windows the caller passes in. The coordinate arrays of points and curves and the parameter vector of a parametric curve cannot be written through the object, and writing into an array after it was used to build an object never changes the object.",
 ['inputs','histories'],"every operation of Point, Segment, Curve, CurvePoint, CurveSegment, every order of operations, every dtype, size and dimension, contiguous or strided input arrays",
 "The tests compare results only; they never re-read receivers and arguments after an operation, and only a few check the writeable flag of one array.",
 [B,U,D,G,I,IN,S],[('copy + read-only flag in Point.__init__ and Curve.__init__',B),('as2d(...).astype(dtype) always copies',B),('coplanar_points and smoothing copy before writing',G)],
 ['Point.data','Curve.data','Curve.t','caller arrays'])
prop('C02','Construction keeps exactly the given coordinates, dtype and parametrisation',
 "A point or curve built from coordinate vectors, an array with any axis, points or another curve holds exactly the given numbers in the given order, converted to the requested (otherwise documented default) numeric dtype, with zero coordinates appended when ndmin asks for more dimensions, and keeps the given parameter vector. Input that is not a curve or point (fewer than two dimensions, ndmin below two, non-numeric dtype, axis out of range, parameter vector of the wrong length or rank, point data of rank above one) is rejected with ValueError. Constructing from a curve, or copying, gives an equal curve of the same size, dimension, dtype and parametrisation, also when it is empty.",
 ['inputs'],"all sizes including 0 and 1, all dimensions, all axes including negative ones, int/float32/float64 data, with and without tdata, ndmin and dtype",
 "Tests build a dozen fixed curves; axis, ndmin, dtype and tdata interact and must be right for each combination and size.",
 [B,U],[('Curve.__init__',B),('Point.__init__',B),('as2d',U)],['Curve.data','Curve.t','Curve.dtype','Curve.ndim'])
prop('C03','Selecting points keeps each point paired with its own parameter value',
 "Indexing a curve by an integer, slice, index sequence or boolean mask, and reversing, deleting points, dropping points, removing duplicates, co-orienting, copying and joining curves select the same positions, in the same order, from the coordinates and from the parameter vector, so the i-th point of the result carries the parameter value it had in the source. The selected positions are those that Python/NumPy indexing rules give, a result of a parametric curve stays parametric (joining: when both are), a non-parametric one stays non-parametric, and the coordinate dtype is kept.",
 ['inputs','histories'],"all curve sizes, all integers, slices with any start/stop/step sign, index lists with repeats and negatives, masks, and compositions of these operations",
 "Tests index one or two small curves with a few slices and rarely check the parameter vector after an operation.",
 [B,D],[('Curve.__getitem__',B),('Curve.reverse/delete/drop/unique/__add__',B),('coorientplane',B),('nonsingular',D)],['Curve.data','Curve.t','CurvePoint.t'])
prop('C04','Insert, append, delete, join and dimension edits form a consistent algebra',
 "Inserting a point or a curve at an index yields the original points with the new ones placed contiguously before that index and everything else unchanged in order; appending is inserting at the end, joining is appending, and deleting the inserted positions restores the original coordinates. Inserting or appending a dimension puts the given values (zeros by default) at that axis and leaves the other coordinates unchanged, and deleting it restores the original. Size and dimension change by exactly the inserted or deleted amount, mismatched dimensions are rejected with ValueError and out-of-range positions with IndexError.",
 ['inputs','histories'],"all sizes and dimensions, every in-range positive or negative index, points and curves of any length, sequences of edits",
 "Tests insert into one fixed curve; the algebraic laws must hold for every index, size and sequence of edits.",
 [B],[('Curve.insert/append/delete/__add__',B),('Curve.insertdim/appenddim/deletedim',B)],['Curve.data','Curve.size','Curve.ndim'])
prop('C05','Containment, index and count agree with point-by-point equality',
 "A point is in a curve exactly when it equals one of the curve's points, count is the number of curve points it equals, and index returns the smallest such position within the given start/end interval (Python slice semantics, negative bounds included) or raises ValueError when there is none. A curve is contained in another exactly when its points equal a contiguous run of the other's points; objects of another dimension are never contained, and index/count reject them.",
 ['inputs'],"all curves, points, start and end values, repeated points, runs at the beginning, middle and end, sub-curves of every length",
 "Tests search a few fixed curves with distinct points; repeated points, negative bounds and boundary runs are not enumerated.",
 [B,N],[('Curve.__contains__/index/count',B),('allequal/isequal',N)],['in','Curve.index','Curve.count'])
prop('C06','Point arithmetic is coordinate-wise and equality respects dimension',
 "Adding, subtracting, multiplying, dividing and floor-dividing points of one dimension, or a point and a Python number on either side, gives the point of the same dimension whose coordinates are the results of the operation applied coordinate by coordinate in the written operand order. The matrix product of two points is their dot product (symmetric and bilinear), the norm is the square root of the point's product with itself, and points of different dimension are never equal while a point always equals its copy. Slicing a point gives the selected coordinates in order.",
 ['inputs'],"all dimensions, all coordinate values and dtypes, all operators in both operand orders",
 "Tests evaluate a handful of literal operand pairs; the laws quantify over every operand and dimension.",
 [B,N],[('Point._op and the operator methods',B),('Point.__matmul__/norm/__eq__',B)],['Point operators'])
prop('C07','Segment parametrisation, its inverse and reversal agree',
 "The point at parameter t of a segment is p1 + t (p2 - p1): t=0 gives p1, t=1 gives p2, the point at a list or array of parameters is the list of the single-parameter points, and for a non-singular segment the parameter computed for the point at t is t again. Reversing swaps the end points, so the reversed segment's point at 1 - t is the segment's point at t; direction, length, data, dot, dimension and conversion to a curve are those of the two end points. Points off the line get the parameter nan.",
 ['inputs'],"all segments in every dimension, all real t inside and outside [0, 1], scalars and sequences of any length including one",
 "Tests use a few t values on axis-aligned segments in two and three dimensions.",
 [G,B],[('segment_point/segment_t',G),('Segment.direction/seglen/reverse/to_curve',B)],['Segment.point','Segment.t','Segment.reverse'])
prop('C08','The shortest segment between segments or a segment and a point is shortest',
 "The shortest segment from a segment to a point or to another segment begins on the first segment and ends on the point or on the other segment, and no other pair of such points is closer. Its length is the distance, the distance does not depend on which of the two segments is asked or on the direction of either, and it is zero when they share a point.",
 ['inputs'],"all pairs of segments and points in every dimension, including crossing, parallel, collinear, touching and singular segments at any scale",
 "Optimality is a statement over every competing pair of points and every input; tests compare a few literal distances.",
 [G,B],[('segment_to_point/segment_to_segment',G),('Segment.shortest_segment/distance',B)],['Segment.shortest_segment','Segment.distance'])
prop('C09','Almost intersections of curves are exactly the close segment pairs',
 "Intersecting two curves (or a curve with itself or a segment) by the 'almost' method reports exactly the pairs of their segments that the same method reports when the two segments are intersected directly - those closer than the distance tolerance (self-intersection: each non-adjacent pair once) - and with the same shortest segments, in row-major order of the segment indices. With extra intersections removed, the result is a subset in which every removed intersection is linked by steps shorter than the extra tolerance to a kept one that is not longer, and with overlap correction only parallel overlapping pairs are re-labelled as overlaps.",
 ['inputs','configurations'],"all pairs of curves in every dimension including parallel, collinear and singular segments, all tolerances, all option combinations",
 "Tests run a few fixed curves; batched and pairwise computations must agree for every geometry and tolerance.",
 [I,G],[('segments_to_segments (batched)',G),('AlmostIntersectionMethod',I)],['Curve.intersect(method="almost")'])
prop('C10','Exact segment intersection is sound, complete in the plane and symmetric',
 "When the exact method reports an intersection of two segments, the reported point lies on both segments (or the reported overlap is the common part of both); in the plane it reports an intersection whenever two segments share a point, up to rounding, and reports overlap exactly for collinear segments whose common part is non-empty. Swapping the segments or reversing either gives the same answer, and translating both translates it.",
 ['inputs'],"all pairs of plane segments away from rounding thresholds, and soundness for all dimensions; crossing, touching at an end, parallel, collinear, disjoint and singular pairs",
 "Tests list about twenty literal pairs; soundness and completeness quantify over all configurations.",
 [I,G],[('ExactIntersectionMethod._intersect_segments',I),('overlap_segments, parallel_segments, collinear_points, coplanar_points',G)],['Segment.intersect'])
prop('C11','Exact curve intersection reports exactly the intersecting segment pairs',
 "Intersecting two curves, or a curve and a segment in either order, by the exact method reports an intersection for exactly those pairs of their segments that intersect when intersected directly, each once, in row-major order, with the same point or overlap and with the two segments in the order of the operands. A curve intersected with itself reports each unordered pair of non-adjacent segments at most once with the smaller index first, and empty curves intersect nothing.",
 ['inputs'],"all pairs of curves in every dimension and size including 0, 1 and 2 points, touching bounding boxes, axis-parallel segments, self-intersection",
 "Tests check counts on a few fixed curves; that the bounding-box filter never loses a pair must hold for every geometry.",
 [I],[('ExactIntersectionMethod._find_segments_bbox_intersection',I),('_curves_intersect_indices',I),('IntersectionMethodBase.__call__',I)],['Curve.intersect'])
prop('C12','Collinear, parallel, coplanar, angle and overlap depend only on geometry',
 "Whether segments and points are collinear, parallel or coplanar, the angle between segments, and their overlap do not change when the arguments are swapped, segments are reversed (the angle becomes its supplement) or everything is translated or uniformly scaled, away from rounding thresholds. Points on a common line are collinear and points on a common plane coplanar, clearly non-collinear or non-coplanar ones are not, angle is in [0, pi] with 0 and pi exactly for parallel directions, and the overlap of collinear segments is exactly their common part, with end points on both, or None if they share no point.",
 ['inputs'],"all configurations with exactly representable coordinates, all dimensions, all translations and directions of the common line",
 "Tests use lines along the axes and the main diagonal near the origin; the predicates must not depend on position or direction.",
 [G,B],[('collinear_points/coplanar_points/parallel_segments/segments_angle/overlap_segments',G),('Segment.collinear/coplanar',B)],['Segment.collinear','Segment.parallel','Segment.coplanar','Segment.angle','Segment.overlap'])
prop('C13','Chord, cumulative and total lengths are consistent',
 "A curve of m points has m-1 chord lengths, the i-th being the Euclidean distance between its points i and i+1, m cumulative lengths that start at 0 and grow by the chord lengths, and an arc length that is their sum (all empty or 0 for curves with fewer than two points). They do not change under translation, are multiplied by |s| when coordinates are scaled by s, and reversal reverses the chord lengths and keeps the arc length; without an explicit parameter vector the curve's parameter is its cumulative length.",
 ['inputs'],"all curves of every size including 0, 1 and 2, dimension, dtype and scale",
 "Tests compare a few literal curves; the laws quantify over all curves and transformations.",
 [D,B],[('chordlen/arclen/cumarclen',D),('Curve.t',B)],['Curve.chordlen','Curve.cumarclen','Curve.arclen','Curve.t'])
prop('C14','Derivatives and Frenet vectors have the defining algebraic relations',
 "First, second and third derivatives have the shape of the curve's data, are translation invariant and linear in the coordinates, are exact for coordinates that are affine (first) or quadratic (first and second) in the point index, and reversing the curve flips the sign of the odd ones and the order of all. The speed is the norm of the tangent; where it is not zero, frenet1 is the unit tangent, the normal is the component of the second derivative orthogonal to it and the binormal the component of the third derivative orthogonal to both, and frenet2 and frenet3 are these normalised, so the frame is orthonormal wherever it is defined.",
 ['inputs'],"all curves of every size including 0 to 3 points and dimension, away from vanishing tangent or normal vectors for the unit vectors",
 "Tests compare literals for a few curves; the relations hold for every curve and point.",
 [D],[('_gradient',D),('CurvePointFunctionMixin: tangent/normal/binormal/speed/frenet1-3',D)],['Curve.firstderiv','Curve.frenet1','Curve.frenet2','Curve.frenet3'])
prop('C15','Curvature and torsion follow their defining formulas and invariances',
 "The curvature of a plane curve is the signed quotient (x'y'' - y'x'')/|tangent|^3 and that of a spatial one the norm of the derivative of the unit tangent over the speed; torsion is the inner product of the derivative of the unit normal with the unit binormal over the speed. Curvature does not change under translation, is divided by s under scaling by s > 0, changes sign in the plane under reflection and reversal, and is zero on straight lines (in space: where the first derivative keeps its direction).",
 ['inputs'],"all curves with non-vanishing tangents, of every size from three points and every dimension, all translations, scales and reflections",
 "Tests compare a few literal values; the invariances and the formula quantify over every curve.",
 [D],[('CurvePointFunctionMixin.curvature/torsion',D)],['Curve.curvature','Curve.torsion'])
prop('C16','Curve points and curve segments are faithful views of their curve',
 "The point of a curve at an index (negative ones count from the end) has the coordinates and index of that position and its parameter, cumulative length, derivatives, tangent, normal, speed, Frenet vectors, curvature and torsion equal the curve's values at that position; the i-th of the m-1 segments joins points i and i+1, knows its index and its chord length. Iterating a curve gives its points in order, the sub-curve between two of its points is the corresponding slice, coordinate accessors give the columns, and an index outside the curve is rejected.",
 ['inputs'],"all curves of every size, every in-range and out-of-range index, every per-point quantity",
 "Tests check a few quantities at fixed indices.",
 [B,D],[('CurvePoint/CurveSegment',B),('_maybe_curve_point',D),('Curve.segments/values',B)],['Curve.__getitem__','Curve.segments','CurvePoint properties'])
prop('C17','Interpolation grids cover the parameter range with the requested spacing',
 "A uniform grid has the requested number of values (or the number given by the chord length, at least two), is strictly increasing, equally spaced and begins and ends at the curve's first and last parameter; an extrapolation grid contains it and extends it before and after by the requested number of equal steps, and a speed-preserving grid (with its default linear interpolation) has the requested number of values and the same end values. Any grid given to interpolate that is not one-dimensional or not strictly increasing is rejected with ValueError and one that does not cover the curve's range is reported by a warning.",
 ['inputs','configurations'],"all curves with at least two distinct points, parametric or not, all counts, chord lengths and extension amounts",
 "Tests use a few counts on one curve; the laws quantify over all curves and parameters.",
 [IN],[('UniformInterpolationGrid/UniformExtrapolationGrid/PreservedSpeedInterpolationGrid',IN),('InterpolatorBase._get_interpolation_grid',IN)],['grid(curve)','Curve.interpolate'])
prop('C18','Interpolated curves have the requested points and reproduce the data',
 "For every interpolation method the result has one point per grid value, the curve's dimension and dtype, and is parametric exactly when the curve is, then with the grid as its parameter vector; an empty curve gives an empty curve of the same dimension and dtype and a single point is rejected. At grid values equal to the curve's parameter values the interpolating methods reproduce the curve's points, curves that are affine in the parameter are reproduced exactly at all grid values in the curve's range, and the result does not depend on the order of dimensions and commutes with translation.",
 ['inputs','configurations'],"all seven methods with their parameters, all curves with strictly increasing parameter and enough points for the method, parametric or not, all grids",
 "Tests check sizes and a few literal values; reproduction must hold for every curve, grid and method.",
 [IN],[('InterpolatorBase.__call__ and the seven interpolators',IN),('Curve.interpolate',B)],['Curve.interpolate'])
prop('C19','Smoothing keeps size and dimension and is linear averaging along the curve',
 "Smoothing returns a float64 curve with as many points and dimensions as the original for every input dtype; each coordinate is filtered independently along the curve, so the result is linear in the coordinates, commutes with translation and with permuting dimensions, and leaves constant coordinates unchanged. Window smoothing with a non-negative window keeps each coordinate within the range of the original, does not depend on the window's scale, and Savitzky-Golay smoothing reproduces coordinates that are polynomial in the index up to its order.",
 ['inputs','configurations'],"all curves of every dtype and size at least the window length, all window types, sizes and modes that need no fill value",
 "Tests check one or two literal smoothed curves.",
 [S],[('savgol_filter/window_filter/smooth',S)],['Curve.smooth'])
prop('C20','Method registries accept new names once and never change on a rejected call',
 "Registering an interpolation, smoothing or intersection method under a new name makes it listed and usable and returns the registered object; registering an existing name, or for interpolation and intersection an object that is not a subclass of the base class, raises and leaves the registry, the listing and the default as they were. Unknown names are rejected with NameError by lookup, by the operations and when setting the default intersection method, and the default is always a registered method, the one last set.",
 ['histories','inputs'],"all sequences of registrations, lookups and default changes, valid and invalid",
 "Tests check single calls; the registry state after rejected calls and sequences is not examined.",
 [IN,S,I,DI],[('register_interpolator/get_interpolator',IN),('register_smooth_method',S),('register_intersect_method/set_default_intersect_method',I),('get_metric',DI)],['known methods lists','decorators'])
prop('C21','Unique, drop and nonsingular remove exactly the specified points',
 "Removing duplicates keeps the first occurrence of every distinct point and nothing else, in order. Dropping removes exactly the points the predicate marks, whether it answers with a mask per point, a mask per coordinate or indices. The nonsingular curve has only finite points and no consecutive coincident points, keeps the order, contains the first finite point and drops a finite point only when it coincides with the finite point before it.",
 ['inputs'],"all curves including empty ones, with repeated points, runs of coincident points, NaN and infinite coordinates, in every dtype and dimension, parametric or not",
 "Tests use a few literal curves with one defect each.",
 [B,D],[('Curve.unique/drop/nonsingular',B),('nonsingular',D)],['Curve.unique','Curve.drop','Curve.nonsingular'])
prop('C22','Co-orientation yields the curve or its reversal with the right orientation',
 "Co-orienting a curve in a plane of two axes returns the curve itself when the determinant of its first and last points in that plane is positive and the reversed curve when it is negative, parameter vector included, so the result's determinant is positive and co-orienting twice is co-orienting once. Curves with fewer than two points are returned unchanged.",
 ['inputs'],"all curves with a non-zero determinant and all pairs of axes, curves with fewer than two points",
 "Tests check two literal curves.",
 [D,B],[('coorientplane',D),('Curve.coorientplane',B)],['Curve.coorientplane'])
prop('C23','Distances between points are those of the named metric',
 "The distance of two points by a metric name is the value of that metric on their coordinates, with the extra arguments passed on, by default the Euclidean one, equal to the norm of the difference of the points; a callable metric gets the two coordinate arrays in order and its value is returned. The Minkowski-type metrics are symmetric, non-negative, zero for equal points and satisfy the triangle inequality; unknown names raise NameError and non-callable metrics TypeError.",
 ['inputs','configurations'],"all points of equal dimension, all thirteen metric names, all callables",
 "Tests check a few metrics on one pair of points.",
 [DI,B],[('get_metric',DI),('Point.distance',B)],['Point.distance'])
prop('C24','Parametric curve factories return points on the curve they name',
 "Each factory returns a parametric curve with the requested number of points whose parameter vector is the uniform grid from start to stop and whose points satisfy the curve's defining equations at these parameters for all parameter values: circle arc, lemniscate of Bernoulli, Archimedean spiral, Euler spiral, Lissajous curve, helix and irregular helix. The dimension is two for the plane curves and three for the helices (for at least one point).",
 ['inputs'],"all parameter ranges, point counts and shape parameters",
 "Tests do not call the factories with any parameters other than the defaults.",
 [CU],[('arc, lemniscate_of_bernoulli, archimedean_spiral, euler_spiral, lissajous, helix, irregular_helix',CU)],['skcurve.curves'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
