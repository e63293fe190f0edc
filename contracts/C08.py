from pydv.contract import contract
from common import exact_vec, param, affine_point, int_dtype, int_segments

PS = ('Segment.shortest_segment', '_geomalg.segment_to_point', 'Segment.distance', 'Segment.point', '_geomalg.segment_point')
SS = ('Segment.shortest_segment', '_geomalg.segment_to_segment', 'Segment.distance', 'Segment.point', '_geomalg.segment_point')


class Pair(object):
    """The segments P + s U and Q + t V with Q = P - W, and the squared distance of their points as a function of s and t."""

    def __init__(self, H, n=None):
        self.H = H
        n = self.n = H.size('n', 1) if n is None else n
        self.P, self.U = exact_vec(H, 'p', n, far=True), exact_vec(H, 'u', n)
        self.V, self.W = exact_vec(H, 'v', n, like=self.U), exact_vec(H, 'w', n, like=self.U)
        self.s1 = H.sk.Segment(H.sk.Point(self.P), affine_point(H, n, self.P, (1, self.U))[0])
        q1, self.Q = affine_point(H, n, self.P, (-1, self.W))
        self.s2 = H.sk.Segment(q1, affine_point(H, n, self.P, (-1, self.W), (1, self.V))[0])
        self.u, self.v, self.w = [(lambda i, X=X: H.at(X, i)) for X in (self.U, self.V, self.W)]
        u, v, w = self.u, self.v, self.w
        self.a, self.b, self.c, self.d, self.e, self.ww = [H.sum(n, lambda i, f=f, g=g: f(i) * g(i)) for f, g in (
            (u, u), (u, v), (v, v), (u, w), (v, w), (w, w))]
        for f in (u, v, w):
            H.sq_nonneg(n, f)
        H.sq_zero(n, u)
        H.sq_zero(n, v)
        H.cauchy(n, u, v)
        H.cauchy(n, u, w)
        H.cauchy(n, v, w)
        # |c u - b v|^2 and |b u - a v|^2 vanish for parallel directions, so do their products with w
        H.cauchy(n, lambda i: self.c * u(i) - self.b * v(i), w)
        H.cauchy(n, lambda i: self.b * u(i) - self.a * v(i), w)
        dd = self.dd = self.a * self.c - self.b * self.b
        # away from the rounding threshold: parallel, or clearly not
        if H.symbolic:
            H.assume(H.Or(dd == 0, dd > 1e-9 * self.a * self.c))
        else:
            m = self.a * self.c
            H.assume(abs(dd) <= 1e-30 * m or dd > 1e-9 * m)

    def f(self, s, t):
        a, b, c, d, e = self.a, self.b, self.c, self.d, self.e
        return self.ww + 2 * s * d - 2 * t * e + s * s * a - 2 * s * t * b + t * t * c

    def gs(self, s, t):
        return self.d + s * self.a - t * self.b

    def gt(self, s, t):
        return t * self.c - self.e - s * self.b

    def witness(self, tag, x, P, u, uu):
        """The parameter of the point x of the segment from P along u."""
        H, n = self.H, self.n
        if H.decide(uu > 0):
            k = H.sum(n, lambda i: (H.at(x, i) - P(i)) * u(i)) / uu
        else:
            k = 0.0
        m = None if H.symbolic else H.mag
        for i in H.each(n):
            H.check(tag + '-on-its-segment', H.close(H.at(x, i), P(i) + k * u(i), scale=m))
        e = 0 if H.symbolic else 1e-9
        H.have(tag + '-between-the-ends', H.And(k >= -e, k <= 1 + e))
        return k

    def stationary(self, tag, g, k, scale):
        """The slope g of the squared distance along a segment at k: no feasible move decreases it."""
        H = self.H
        e, z = (0, 0) if H.symbolic else (1e-7 * scale, 1e-9)
        H.have(tag, H.And(H.Or(g >= -e, k >= 1 - z), H.Or(g <= e, k <= z)))


def optimal(H, p, s, t):
    """No other pair of points is closer."""
    x, y = H.real('s', 0, 1), H.real('t', 0, 1)
    n = p.n
    H.sq_nonneg(n, lambda i: (x - s) * p.u(i) - (y - t) * p.v(i))
    gs, gt = p.gs(s, t), p.gt(s, t)
    q = (x - s) * (x - s) * p.a - 2 * (x - s) * (y - t) * p.b + (y - t) * (y - t) * p.c
    if H.symbolic:
        H.have('slope-s', gs * (x - s) >= 0)
        H.have('slope-t', gt * (y - t) >= 0)
        H.arith('expansion', p.f(x, y) == p.f(s, t) + 2 * gs * (x - s) + 2 * gt * (y - t) + q)
    e = 0 if H.symbolic else 1e-8 * (p.ww + p.a + p.c)
    H.check('shortest', p.f(x, y) >= p.f(s, t) - e)


def between(H, parallel):
    p = Pair(H)
    if H.symbolic:
        H.assume(p.dd == 0 if parallel else p.dd > 0)
    r = p.s1.shortest_segment(p.s2)
    H.check('is-segment', isinstance(r, H.sk.Segment))
    H.check('dimension', r.ndim == p.n)
    s = p.witness('first', r.p1.data, lambda i: H.at(p.P, i), p.u, p.a)
    t = p.witness('second', r.p2.data, lambda i: H.at(p.Q, i), p.v, p.c)
    p.stationary('least-along-the-first', p.gs(s, t), s, p.ww + p.a + p.c)
    p.stationary('least-along-the-second', p.gt(s, t), t, p.ww + p.a + p.c)
    optimal(H, p, s, t)


@contract('C08', functions=SS)
def between_segments(H):
    """The ends are on the segments and satisfy the conditions for the least squared distance; no other pair is closer."""
    between(H, False)


@contract('C08', functions=SS)
def between_parallel_segments(H):
    """The same for parallel and singular segments."""
    between(H, True)


@contract('C08', functions=PS)
def to_point(H):
    """From a segment to a point: the same, the second end is the point."""
    n = H.size('n', 1)
    A, U, X = exact_vec(H, 'a', n, far=True), exact_vec(H, 'u', n), exact_vec(H, 'x', n, far=True)
    s = H.sk.Segment(H.sk.Point(A), affine_point(H, n, A, (1, U))[0])
    q = H.sk.Point(X)
    u, w = (lambda i: H.at(U, i)), (lambda i: H.at(X, i) - H.at(A, i))
    uu, uw, ww = [H.sum(n, f) for f in (lambda i: u(i) * u(i), lambda i: u(i) * w(i), lambda i: w(i) * w(i))]
    H.sq_nonneg(n, u)
    H.sq_nonneg(n, w)
    H.sq_zero(n, u)
    H.cauchy(n, u, w)
    r = s.shortest_segment(q)
    H.check('is-segment', isinstance(r, H.sk.Segment))
    x = r.p1.data
    m = None if H.symbolic else H.mag
    k = H.sum(n, lambda i: (H.at(x, i) - H.at(A, i)) * u(i)) / uu if H.decide(uu > 0) else 0.0
    for i in H.each(n):
        H.check('begins-on-the-segment', H.close(H.at(x, i), H.at(A, i) + k * u(i), scale=m))
        H.check('ends-at-the-point', H.exact(H.at(r.p2.data, i), H.at(X, i)))
    e = 0 if H.symbolic else 1e-9
    H.have('between-the-ends', H.And(k >= -e, k <= 1 + e))
    y = H.real('s', 0, 1)
    f = lambda z: ww - 2 * z * uw + z * z * uu
    g = k * uu - uw
    tol = 0 if H.symbolic else 1e-7 * (uu + ww)
    H.have('least', H.And(H.Or(g >= -tol, k >= 1 - e), H.Or(g <= tol, k <= e)))
    if H.symbolic:
        H.have('slope', g * (y - k) >= 0)
        H.arith('expansion', f(y) == f(k) + 2 * g * (y - k) + uu * (y - k) * (y - k))
        H.arith('square', H.Implies(uu >= 0, uu * (y - k) * (y - k) >= 0))
    H.check('shortest', f(y) >= f(k) - tol)


@contract('C08', functions=('Segment.shortest_segment',))
def other_arguments(H):
    p = Pair(H)
    bad = H.choice('bad', (None, 1.0, 'x', [1.0, 2.0]))
    H.raises('shortest', TypeError, lambda: p.s1.shortest_segment(bad))
    H.raises('distance', TypeError, lambda: p.s1.distance(bad))


class Found(object):
    """Calls of shortest_segment give what between_segments says: some pair of points, no other pair being closer."""

    def __init__(self, H, p):
        self.H, self.p, self.pairs = H, p, []
        H.callee(H.sk.Segment, 'shortest_segment', 'C08/between_segments', lambda a, b, *x, **y: self.spec(a, b))

    def spec(self, a, b):
        H = self.H
        s, t = H.real('opt', 0, 1), H.real('opt', 0, 1)
        (i, k), (j, l) = self.place(a, s), self.place(b, t)
        k, l = (k, l) if i == 1 else (l, k)
        for x, y in self.pairs:
            H.assume(self.p.f(k, l) == self.p.f(x, y))
        self.pairs.append((k, l))
        return H.sk.Segment(a.point(s), b.point(t))

    def place(self, seg, t):
        """Which of the two segments it is and the parameter on it."""
        for i, s in ((1, self.p.s1), (2, self.p.s2)):
            if seg.p1 is s.p1 and seg.p2 is s.p2:
                return i, t
            if seg.p1 is s.p2 and seg.p2 is s.p1:
                return i, 1 - t
        raise AssertionError('another segment')


@contract('C08', functions=('Segment.distance', 'Segment.seglen', 'Segment.shortest_segment'))
def distance_is_the_length(H):
    """The distance is the length of the shortest segment: the distance of its ends."""
    p = Pair(H)
    Found(H, p)
    d = p.s1.distance(p.s2)
    r = p.s1.shortest_segment(p.s2)
    x, y = r.p1.data, r.p2.data
    q = H.sum(p.n, lambda i: (H.at(x, i) - H.at(y, i)) * (H.at(x, i) - H.at(y, i)))
    H.check('length', H.close(r.seglen, H.sqrt(q)))
    H.check('distance', H.close(d, r.seglen))


@contract('C08', functions=('Segment.distance', 'Segment.reverse', 'Segment.shortest_segment'))
def distance_is_symmetric(H):
    """The distance is the same when the segments are swapped or reversed."""
    p = Pair(H)
    Found(H, p)
    d = p.s1.distance(p.s2)
    a, b = p.s1, p.s2
    x, y = H.choice('other', ((b, a), (a.reverse(), b), (a, b.reverse()), (b.reverse(), a.reverse())))
    o = x.distance(y)
    H.check('same', H.close(o, d) if H.symbolic else abs(o - d) <= 1e-7 * (H.np.sqrt(p.ww) + H.np.sqrt(p.a) + H.np.sqrt(p.c)))


@contract('C08', functions=('Segment.distance', 'Segment.shortest_segment'))
def common_point(H):
    """Segments with a common point are at the distance 0."""
    n = H.size('n', 1)
    X, U, V = exact_vec(H, 'x', n, far=True), exact_vec(H, 'u', n), exact_vec(H, 'v', n)
    s, t = H.real('s', 0, 1, step=0.25), H.real('t', 0, 1, step=0.25)
    mk = lambda k, D: H.sk.Segment(affine_point(H, n, X, (-k, D))[0], affine_point(H, n, X, (1 - k, D))[0])
    a, b = mk(s, U), mk(t, V)
    u, v = (lambda i: H.at(U, i)), (lambda i: H.at(V, i))

    def spec(p, q, *x, **y):
        # no other pair is closer: in particular not the common point
        k, l = H.real('opt', 0, 1), H.real('opt', 0, 1)
        f = lambda i: (k - s) * u(i) - (l - t) * v(i)
        H.sq_nonneg(n, f)
        H.assume(H.sum(n, lambda i: f(i) * f(i)) <= 0)
        return H.sk.Segment(p.point(k), q.point(l))
    H.callee(H.sk.Segment, 'shortest_segment', 'C08/between_segments', spec)
    d = a.distance(b)
    if H.symbolic:
        H.check('zero', d == 0)
    else:
        uu, uv, vv = (U * U).sum(), (U * V).sum(), (V * V).sum()
        dd = uu * vv - uv * uv
        H.assume(abs(dd) <= 1e-30 * uu * vv or dd > 1e-9 * uu * vv)
        H.check('zero', d <= 1e-7 * (H.np.sqrt(uu) + H.np.sqrt(vv)) + 1e-12 * H.mag)


@contract('C08', functions=SS + PS, deductive=False, bound='pairs of segments in up to 13 dimensions')
def against_all_candidates(H):
    """The length is the least of the lengths of the candidates: the distances of each end from the other segment
    and the distance of the common perpendicular."""
    p = Pair(H)
    np = H.np
    P, U, V, W = p.P, p.U, p.V, p.W

    def to(A, D, X):
        dd = (D * D).sum()
        k = 0.0 if dd == 0 else min(1.0, max(0.0, ((X - A) * D).sum() / dd))
        r = A + k * D - X
        return np.sqrt((r * r).sum())
    P1, Q = P + U, P - W
    Q2 = Q + V
    c = [to(P, U, Q), to(P, U, Q2), to(Q, V, P), to(Q, V, P1)]
    if p.dd > 1e-9 * p.a * p.c:
        s, t = (p.b * p.e - p.c * p.d) / p.dd, (p.a * p.e - p.b * p.d) / p.dd
        if 0 <= s <= 1 and 0 <= t <= 1:
            r = W + s * U - t * V
            c.append(np.sqrt((r * r).sum()))
    d = p.s1.distance(p.s2)
    e = 1e-7 * (np.sqrt(p.ww) + np.sqrt(p.a) + np.sqrt(p.c)) + 1e-12 * H.mag
    H.check('least', abs(d - min(c)) <= e)
    H.check('to-point', abs(p.s1.distance(H.sk.Point(Q2)) - c[1]) <= e)


@contract('C08', functions=SS + PS + ('_numeric.as_inexact',), deductive=False, bound='segments in up to 13 dimensions, every integer type')
def integer_points(H):
    """The distances between segments of integer points are those of the same numbers as floating point ones."""
    d = int_dtype(H)
    n = H.size('n', 1)
    s, f = int_segments(H, 's', n, d)
    u, g = int_segments(H, 'u', n, d)
    H.check('segments', H.close(s.distance(u), f.distance(g)))
    H.check('point', H.close(s.distance(u.p1), f.distance(g.p1)))
