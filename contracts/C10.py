from pydv.contract import contract
from common import exact_vec, param, affine_point, mkseg, int_dtype, int_segments

INT = ('Segment.intersect', '_intersect.intersect', '_intersect.IntersectionMethodBase.__call__',
       '_intersect.ExactIntersectionMethod._intersect_segments')
GEO = ('Segment.point', '_geomalg.segment_point', 'Segment.singular', 'Segment.parallel', '_geomalg.parallel_segments', '_geomalg.overlap_segments')


def types(H):
    return H.load('skcurve._intersect').IntersectionType


def apart(H, p, q, n):
    """The points differ by more than the tolerance of the package's equality."""
    x, y = p.data, q.data
    H.assume(H.exists(n, lambda i: H.abs(H.at(x, i) - H.at(y, i)) > 1e-7 + 1e-4 * H.abs(H.at(y, i))))
    H.assume(H.exists(n, lambda i: H.abs(H.at(x, i) - H.at(y, i)) > 1e-7 + 1e-4 * H.abs(H.at(x, i))))


def edge(H, v):
    """v is not within the tolerance of the ends, or it is exactly there."""
    d = 1e-4
    H.assume(H.Or(v <= -d, v == 0, H.And(v >= d, v <= 1 - d), v == 1, v >= 1 + d))


class Crossing(object):
    """Two segments of lines that cross at X: X + (k - s) U and X + (k - t) V, k in [0, 1]."""

    def __init__(self, H, n):
        self.H, self.n = H, n
        self.X, self.U, self.V = exact_vec(H, 'x', n, far=True), exact_vec(H, 'u', n), exact_vec(H, 'v', n)
        s, t = self.s, self.t = param(H, 's', -2, 3), param(H, 't', -2, 3)
        edge(H, s)
        edge(H, t)
        f = lambda k, W: affine_point(H, n, self.X, (k, W))[0]
        self.p = [f(-s, self.U), f(1 - s, self.U)]
        self.q = [f(-t, self.V), f(1 - t, self.V)]
        u, v = (lambda i: H.at(self.U, i)), (lambda i: H.at(self.V, i))
        self.u, self.v = u, v
        self.a, self.b, self.c = [H.sum(n, g) for g in (lambda i: u(i) * u(i), lambda i: u(i) * v(i), lambda i: v(i) * v(i))]
        H.sq_nonneg(n, u)
        H.sq_nonneg(n, v)
        H.assume(self.a * self.c - self.b * self.b > 1e-9 * self.a * self.c)
        # an end of the second segment that is not the crossing point is not on the line of the first
        self.third = 0 if H.decide(t != 0) else 1
        for x, y in ((self.p[0], self.p[1]), (self.q[0], self.q[1]), (self.p[0], self.q[self.third]), (self.p[1], self.q[self.third])):
            apart(H, x, y, n)
        H.callee(H.sk.Segment, 'collinear', 'C12/segment_off_the_line_1..4', lambda *a, **k: False)
        H.callee(H.sk.Segment, 'coplanar', 'C12/on_a_plane', lambda *a, **k: True)
        H.callee(H.sk.Segment, 'parallel', 'C12/parallel_is_symmetric', lambda *a, **k: False)

    def check(self, r, s1, s2):
        H = self.H
        T = types(H)
        H.check('operands', r.segment1 is s1 and r.segment2 is s2)
        hit = H.And(self.s >= 0, self.s <= 1, self.t >= 0, self.t <= 1)
        if r.intersect_type == T.NONE:
            if H.symbolic or self.n == 2:
                H.check('none-only-without-a-common-point', H.Not(hit))
            H.check('no-data', r.intersect_info.data is None and not r)
            return
        H.check('exact', r.intersect_type == T.EXACT and bool(r))
        x = r.intersect_point
        if H.symbolic and self.n == 2:
            z = [H.at(x.data, i) - H.at(self.X, i) for i in (0, 1)]
            U, V = [[f(0), f(1)] for f in (self.u, self.v)]
            d = U[0] * V[1] - U[1] * V[0]
            H.have('on-the-first-line', z[0] * U[1] - z[1] * U[0] == 0)
            H.have('on-the-second-line', z[0] * V[1] - z[1] * V[0] == 0)
            for i in (0, 1):
                H.arith('cramer', z[i] * d == U[i] * (z[0] * V[1] - z[1] * V[0]) - V[i] * (z[0] * U[1] - z[1] * U[0]))
                H.have('is-the-crossing', z[i] == 0)
        H.check('not-without-a-common-point', hit)
        m = None if H.symbolic else H.mag
        H.check('is-point', isinstance(x, H.sk.Point) and r.intersect_info.data is x)
        H.check('dimension', x.ndim == self.n)
        z = r.intersect_segment
        for i in H.each(self.n):
            H.check('common-point', H.close(H.at(x.data, i), H.at(self.X, i), scale=m))
            H.check('intersect-segment', H.And(H.exact(H.at(z.p1.data, i), H.at(x.data, i)), H.exact(H.at(z.p2.data, i), H.at(x.data, i))))


ORDERS = ('pq', 'qp', 'rq', 'pr')


def crossing(H, n, k=None):
    c = Crossing(H, n)
    k = H.choice('order', ORDERS) if k is None else k
    s1, s2 = H.sk.Segment(*c.p), H.sk.Segment(*c.q)
    if k == 'qp':
        s1, s2 = s2, s1
    elif k == 'rq':
        s1 = s1.reverse()
    elif k == 'pr':
        s2 = s2.reverse()
    c.check(s1.intersect(s2, method='exact'), s1, s2)


def each_order(fn):
    for k in ORDERS:
        def one(H, k=k):
            return fn(H, k)
        one.__name__, one.__doc__ = '%s_%s' % (fn.__name__, k), fn.__doc__
        contract('C10', functions=INT + GEO)(one)
    return fn


@each_order
def crossing_in_the_plane(H, k):
    """Lines that cross: an intersection is reported exactly when the crossing point is on both segments, and it is that point,
    in whichever order and direction the segments are given (one contract per order)."""
    crossing(H, 2, k)


@each_order
def crossing_in_space(H, k):
    """The same in three and more dimensions (at run time a crossing may be missed there: the segments are not exactly coplanar)."""
    crossing(H, H.size('n', 3), k)


# ---------------------------------------------------------------- segments on one line
def mn(H, a, b):
    return H.If(a < b, a, b)


def mx(H, a, b):
    return H.If(a < b, b, a)


@contract('C10', functions=INT)
def on_one_line(H):
    """Segments of one line (singular ones too): their common part is reported as overlap, in either order and direction."""
    n = H.size('n', 2)
    A, D = exact_vec(H, 'a', n, far=True), exact_vec(H, 'd', n)
    T = [param(H, 't%d' % i) for i in range(4)]
    P = [affine_point(H, n, A, (t, D))[0] for t in T]
    lo = mx(H, mn(H, T[0], T[1]), mn(H, T[2], T[3]))
    hi = mn(H, mx(H, T[0], T[1]), mx(H, T[2], T[3]))
    H.assume(H.exists(n, lambda i: H.at(D, i) != 0))
    s1, s2 = H.sk.Segment(P[0], P[1]), H.sk.Segment(P[2], P[3])
    k = H.choice('order', ORDERS)
    if k == 'qp':
        s1, s2 = s2, s1
    elif k == 'rq':
        s1 = s1.reverse()
    elif k == 'pr':
        s2 = s2.reverse()
    L, R = affine_point(H, n, A, (lo, D))[0], affine_point(H, n, A, (hi, D))[0]

    def overlap(a, b, *x, **y):
        if H.decide(lo > hi):
            return None
        return H.sk.Segment(L, R) if H.decide(H.unknown_bool()) else H.sk.Segment(R, L)
    H.callee(H.sk.Segment, 'collinear', 'C12/segment_on_the_line', lambda *a, **k: True)
    H.callee(H.sk.Segment, 'overlap', 'C12/overlap_is_the_common_part_0..3', overlap)
    r = s1.intersect(s2, method='exact')
    t = types(H)
    H.check('operands', r.segment1 is s1 and r.segment2 is s2)
    if r.intersect_type == t.NONE:
        H.check('none-only-without-a-common-point', lo > hi)
        H.check('no-data', r.intersect_info.data is None and not r and r.intersect_point is None and r.intersect_segment is None)
        return
    H.check('overlap', r.intersect_type == t.OVERLAP and bool(r))
    H.check('not-without-a-common-point', lo <= hi)
    x = r.intersect_segment
    H.check('is-segment', isinstance(x, H.sk.Segment) and r.intersect_info.data is x)
    z = dict(scale=None if H.symbolic else H.mag)
    same = lambda p, q: H.forall(n, lambda i: H.close(H.at(p.data, i), H.at(q.data, i), **z))
    H.check('common-part', H.Or(H.And(same(x.p1, L), same(x.p2, R)), H.And(same(x.p1, R), same(x.p2, L))))
    m = r.intersect_point
    for i in H.each(n):
        H.check('middle', H.close(H.at(m.data, i), (H.at(L.data, i) + H.at(R.data, i)) / 2, **z))


# ---------------------------------------------------------------- no common point
def none(H, r, s1, s2):
    H.check('operands', r.segment1 is s1 and r.segment2 is s2)
    H.check('none', r.intersect_type == types(H).NONE and not r)
    H.check('no-data', r.intersect_info.data is None and r.intersect_point is None and r.intersect_segment is None)


def off_the_line(H, A, B, C, n):
    """C is clearly not on the line through A and B, no two of them are equal."""
    a, b = H.int('a', 0, n - 1), H.int('b', 0, n - 1)
    x, y, z = [lambda i, p=p: H.at(p.data, i) for p in (A, B, C)]
    minor = (y(a) - x(a)) * (z(b) - x(b)) - (y(b) - x(b)) * (z(a) - x(a))
    if H.symbolic:
        H.assume(minor != 0)
    else:
        scale = max(H.np.abs(p.data).max() for p in (A, B, C)) ** 2
        H.assume(abs(minor) > 1e-9 * scale and scale > 0)
    for p, q in ((A, B), (A, C), (B, C)):
        apart(H, p, q, n)


@contract('C10', functions=INT + GEO)
def parallel_lines(H):
    """Segments of two parallel lines have no common point; nor has a point off the line of the other segment."""
    n = H.size('n', 2)
    A, D, C = exact_vec(H, 'a', n, far=True), exact_vec(H, 'd', n), exact_vec(H, 'c', n, far=True)
    t, k = param(H, 't', -3, 3), H.choice('singular', (False, True))
    P = [H.sk.Point(A), affine_point(H, n, A, (1, D))[0]]
    Q = [H.sk.Point(C), H.sk.Point(C) if k else affine_point(H, n, C, (t, D))[0]]
    off_the_line(H, P[0], P[1], Q[0], n)
    H.sq_nonneg(n, lambda i: H.at(D, i))
    H.callee(H.sk.Segment, 'collinear', 'C12/segment_off_the_line_1..4', lambda *a, **k: False)
    H.callee(H.sk.Segment, 'coplanar', 'C12/on_a_plane', lambda *a, **k: True)
    s1, s2 = H.sk.Segment(*P), H.sk.Segment(*Q)
    if H.choice('swap', (False, True)):
        s1, s2 = s2, s1
    none(H, s1.intersect(s2, method='exact'), s1, s2)


@contract('C10', functions=INT + GEO)
def skew_lines(H):
    """Segments that are not in one plane have no common point."""
    n = H.size('n', 3)
    v = [exact_vec(H, c, n) for c in 'pqrw']
    a, b, c = H.int('a', 0, n - 1), H.int('b', 0, n - 1), H.int('c', 0, n - 1)
    d = [[H.at(v[k], i) - H.at(v[3], i) for i in (a, b, c)] for k in range(3)]
    det = (d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0])
           + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]))
    if H.symbolic:
        H.assume(det != 0)
    else:
        m = max(abs(x).max() for x in v)
        H.assume(m > 0 and abs(det) > 1e-9 * m ** 3)
    p = [H.sk.Point(x) for x in v]
    for i in range(4):
        for j in range(i):
            apart(H, p[i], p[j], n)
    H.callee(H.sk.Segment, 'collinear', 'C12/segment_off_the_line_1..4', lambda *a, **k: False)
    H.callee(H.sk.Segment, 'coplanar', 'C12/off_a_plane', lambda *a, **k: False)
    H.callee(H.sk.Segment, 'parallel', 'nothing', lambda *a, **k: H.unknown_bool())
    s1, s2 = H.sk.Segment(p[0], p[1]), H.sk.Segment(p[2], p[3])
    none(H, s1.intersect(s2, method='exact'), s1, s2)


# ---------------------------------------------------------------- soundness for any segments
def reported(H, n):
    A, U, V, W = [H.array(k, n) for k in 'auvw']
    s1 = H.sk.Segment(H.sk.Point(A), affine_point(H, n, A, (1, U))[0])
    s2 = H.sk.Segment(affine_point(H, n, A, (1, W))[0], affine_point(H, n, A, (1, W), (1, V))[0])
    C = s2.p1.data
    u, v = [(lambda i, x=x: H.at(x, i)) for x in ((U, V) if H.symbolic else (s1.p2.data - A, s2.p2.data - C))]
    H.sq_nonneg(n, u)
    H.sq_nonneg(n, v)
    anything = lambda *a, **k: H.unknown_bool()
    for f in ('collinear', 'coplanar'):
        H.callee(H.sk.Segment, f, 'nothing', anything)
    a, b, c = [H.sum(n, g) for g in (lambda i: u(i) * u(i), lambda i: u(i) * v(i), lambda i: v(i) * v(i))]
    H.callee(H.sk.Segment, 'parallel', 'C12/parallel_directions', lambda *x, **k: H.unknown_bool(
        lambda p: H.Or(p, H.And(a * c - b * b > 0, a > 0, c > 0))))
    r = s1.intersect(s2, method='exact')
    T = types(H)
    H.check('operands', r.segment1 is s1 and r.segment2 is s2)
    if r.intersect_type != T.EXACT:
        H.check('type', r.intersect_type == T.NONE or r.intersect_type == T.OVERLAP)
        return None
    x = r.intersect_point
    m = 0 if H.symbolic else H.mag
    for w, o, (p, q), (f, g) in ((u, a, (A, C), ('on-the-first', 'between-its-ends')), (v, c, (C, A), ('near-the-second', 'between-the-other-ends'))):
        # z / o is the parameter of the point of the line that is closest to x
        z = H.sum(n, lambda i: (H.at(x.data, i) - H.at(p, i)) * w(i))
        if H.symbolic:
            k = H.solution(0 if p is A else 1)
            k = z / o if k is None else k
            H.check(g, H.And(k >= -1e-8, k <= 1 + 1.001e-5))
            y = lambda i: H.at(p, i) + k * w(i)
            if p is A:
                for i in H.each(n):
                    H.check(f, H.at(x.data, i) == y(i))
            else:
                close = H.forall(n, lambda i: H.abs(H.at(x.data, i) - y(i)) <= 1e-8 + 1e-5 * H.abs(y(i)))
                H.check(f, H.Or(close, H.sum(n, lambda i: (H.at(x.data, i) - y(i)) * (H.at(x.data, i) - y(i))) <= 1e-30))
        else:
            k, e = z / o, 2e-5 * (1 + m / H.np.sqrt(o))
            H.check(g, -2e-8 - e <= k <= 1 + 1.1e-5 + e)
            for i in range(n):
                H.check(f, abs(H.at(x.data, i) - H.at(p, i) - k * w(i)) <= 1e-7 + 1e-5 * m)


@contract('C10', functions=INT + GEO)
def reported_point_in_the_plane(H):
    """Whatever the segments: a point that is reported is on the first (up to the tolerance of the parameter), and
    the second has a point within the tolerance of the package's equality."""
    reported(H, 2)


@contract('C10', functions=INT + GEO)
def reported_point_in_space(H):
    """The same in three and more dimensions."""
    reported(H, H.size('n', 3))


@contract('C10', functions=('Segment.intersect', '_intersect.intersect'), deductive=False, bound='segments in up to 6 dimensions, every integer type')
def integer_points(H):
    """The intersection of segments of integer points is that of the same numbers as floating point ones."""
    d = int_dtype(H)
    n = H.size('n', 2, 6)
    s, f = int_segments(H, 's', n, d)
    if H.choice('like', (False, True)):
        u, g = s.reverse(), f.reverse()
    else:
        u, g = int_segments(H, 'u', n, d)
    x, y = s.intersect(u), f.intersect(g)
    H.check('type', x.intersect_type == y.intersect_type)
    if y:
        H.check('point', H.same_array(x.intersect_point.data, y.intersect_point.data))


@contract('C10', functions=('Segment.intersect', '_intersect.ExactIntersectionMethod._intersect_segments'), deductive=False,
          bound='integer coordinates up to 40, 2 to 5 dimensions')
def crossing_at_a_given_point(H):
    """Segments drawn through a common point, with ends that agree in some of their coordinates, intersect there."""
    np, sk = H.np, H.sk
    n = H.size('n', 2, 5)
    x, p = (H.array(c, n, 'int64', kind=('int', -9, 10)).astype('float64') for c in 'xp')
    q = p.copy()
    for i in range(n):
        if H.choice('differs', (False, False, True)):
            q[i] += H.int('d', -9, 9)
    u, v = x - p, x - q
    H.assume((u @ u) * (v @ v) - (u @ v) ** 2 > 0.5)
    P, S = sk.Point, sk.Segment
    k, l = H.choice('k', (1.0, 1.5, 2.0, 4.0)), H.choice('l', (1.0, 1.5, 2.0, 4.0))
    s, o = S(P(p), P(p + k * u)), S(P(q), P(q + l * v))
    H.assume(not s.parallel(o))
    if H.choice('reversed', (False, True)):
        o = o.reverse()
    r = s.intersect(o, method='exact')
    H.check('reported', bool(r))
    if r:
        H.check('at-the-common-point', bool(np.allclose(r.intersect_point.data, x, atol=1e-6)))
