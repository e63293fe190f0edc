from pydv.contract import contract
from common import mkseg, int_dtype, int_segments

PT = ('Segment.__init__', 'Segment.point', '_geomalg.segment_point', 'Segment.direction')
TT = ('Segment.t', '_geomalg.segment_t', 'Segment.collinear', '_geomalg.collinear_points')


def lerp(H, A, B, t, i):
    return H.at(A, i) + t * (H.at(B, i) - H.at(A, i))


@contract('C07', functions=PT)
def point_at_parameter(H):
    sk = H.sk
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    t = H.real('t')
    p = s.point(t)
    H.check('is-point', isinstance(p, sk.Point))
    H.check('dimension', p.ndim == n)
    for i in H.each(n):
        H.check('coordinate', H.close(H.at(p.data, i), lerp(H, A, B, t, i), scale=1 + H.abs(t)))
    q = s.point(0.0)
    r = s.point(1.0)
    for i in H.each(n):
        H.check('t0', H.close(H.at(q.data, i), H.at(A, i)))
        H.check('t1', H.close(H.at(r.data, i), H.at(B, i)))


@contract('C07', functions=PT)
def integer_parameter(H):
    """Parameters and coordinates of integer types."""
    n = H.size('n', 1)
    d = H.choice('dtype', ('float64', 'int64', 'int32', 'float32'))
    A, B = H.array('p1', n, d), H.array('p2', n, d)
    s = H.sk.Segment(H.sk.Point(A, dtype=d), H.sk.Point(B, dtype=d))
    t = H.int('t', -3, 3)
    p = s.point(t)
    H.check('is-point', isinstance(p, H.sk.Point))
    for i in H.each(n):
        H.check('coordinate', H.close(H.at(p.data, i), lerp(H, A, B, t, i), scale=1e4, rtol=1e-5 if d == 'float32' else None))


@contract('C07', functions=PT)
def points_at_parameters(H):
    """A list, tuple or array of parameters of any length (including 0 and 1) gives the list of the points."""
    n, k = H.size('n', 1), H.size('k', 0)
    s, A, B = mkseg(H, 's', n)
    T = H.array('t', k)
    form = H.choice('form', ('array',) if H.symbolic else ('array', 'list', 'tuple'))
    ps = s.point(T if form == 'array' else T.tolist() if form == 'list' else tuple(T.tolist()))
    H.check('is-list', isinstance(ps, list) or H.symbolic)
    H.check('one-point-per-parameter', H.len(ps) == k)
    for j in H.each(k):
        p = ps[j]
        H.check('is-point', isinstance(p, H.sk.Point))
        H.check('dimension', p.ndim == n)
        for i in H.each(n):
            t = H.at(T, j)
            H.check('coordinate', H.close(H.at(p.data, i), lerp(H, A, B, t, i), scale=1 + H.abs(t)))


@contract('C07', functions=PT)
def points_at_few_parameters(H):
    """The same for literal lists of one to three numbers."""
    n, k = H.size('n', 1), H.choice('k', (1, 2, 3))
    s, A, B = mkseg(H, 's', n)
    T = [H.real('t') for _ in range(k)]
    ps = s.point(T if H.choice('form', ('list', 'tuple')) == 'list' else tuple(T))
    H.check('one-point-per-parameter', H.len(ps) == k)
    for j in range(k):
        H.check('is-point', isinstance(ps[j], H.sk.Point))
        for i in H.each(n):
            H.check('coordinate', H.close(H.at(ps[j].data, i), lerp(H, A, B, T[j], i), scale=1 + H.abs(T[j])))


@contract('C07', functions=PT)
def two_dimensional_parameters(H):
    """An array of parameters of rank two is rejected."""
    s, A, B = mkseg(H, 's', H.size('n', 1))
    T = H.array('t', (H.size('a', 1), H.size('b', 1)))
    H.raises('rank-two', ValueError, lambda: s.point(T))


def long_enough(H, A, B, n, lim=0.5):
    H.assume(H.exists(n, lambda i: H.abs(H.at(A, i) - H.at(B, i)) > lim))
    H.sq_zero(n, lambda i: H.at(B, i) - H.at(A, i))


@contract('C07', functions=TT)
def parameter_of_point(H):
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    long_enough(H, A, B, n)
    t = H.real('t', -4, 4)
    u = s.t(s.point(t))
    H.check('inverse', H.close(u, t))


@contract('C07', functions=TT)
def parameters_of_points(H):
    """The parameters of a sequence of points (of one or more) are those of the points."""
    n, k = H.size('n', 1), H.choice('k', (1, 2) if H.symbolic else (1, 2, 3))
    s, A, B = mkseg(H, 's', n)
    long_enough(H, A, B, n)
    T = [H.real('t', -4, 4) for _ in range(k)]
    ps = [s.point(t) for t in T]
    H.callee(H.sk.Segment, 'collinear', 'C12/point_on_the_line', lambda seg, p, *a, **kw: H.unknown_bool(
        lambda b: H.Implies(H.exists(k, lambda j: H.forall(n, lambda i: H.at(p.data, i) == lerp(H, A, B, T[j] if k == 1 else H.If(j == 0, T[0], T[1]), i))), b)))
    u = s.t(ps if H.choice('form', ('list', 'tuple')) == 'list' else tuple(ps))
    H.check('shape', H.shape_is(u, k))
    for j in range(k):
        H.check('inverse', H.close(H.at(u, j), T[j]))


def off_line(H):
    """A segment and a point that is clearly not on its line."""
    n = H.size('n', 2)
    s, A, B = mkseg(H, 's', n)
    a, b = H.int('a', 0, n - 1), H.int('b', 0, n - 1)
    long_enough(H, A, B, n)
    q = H.sk.Point(H.array('q', n))
    d = lambda i: H.at(B, i) - H.at(A, i)
    w = lambda i: H.at(q.data, i) - H.at(A, i)
    H.assume(H.abs(d(a) * w(b) - d(b) * w(a)) > (0 if H.symbolic else 1e-6 * (1 + H.mag) ** 2))
    for C in (A, B):
        H.assume(H.exists(n, lambda i: H.abs(H.at(q.data, i) - H.at(C, i)) > 1e-7 + 1e-4 * H.abs(H.at(C, i))))
    return n, s, q


@contract('C07', functions=TT)
def point_off_the_line(H):
    """A point that is not on the line has the parameter nan and a warning is given."""
    n, s, q = off_line(H)
    u, cats = H.warns(lambda: s.t(q))
    H.check('nan', H.is_nan(u))
    H.check('warned', H.load('skcurve._geomalg').GeometryAlgorithmsWarning in cats)
    v, cats = H.warns(lambda: s.t([q]))
    H.check('shape', H.shape_is(v, 1))
    H.check('nan-in-sequence', H.is_nan(H.at(v, 0)))
    H.check('warned-in-sequence', H.load('skcurve._geomalg').GeometryAlgorithmsWarning in cats)


@contract('C07', functions=TT)
def points_on_and_off_the_line(H):
    """In a sequence only the points off the line have the parameter nan."""
    n, s, q = off_line(H)
    t = H.real('t', -4, 4)
    first = H.choice('first', (True, False))
    p = s.point(t)
    A, B = s.p1.data, s.p2.data
    H.callee(H.sk.Segment, 'collinear', 'C12/point_on_the_line, C12/point_off_the_line', lambda seg, p, *a, **k: H.unknown_bool(
        lambda b: H.Implies(H.forall(n, lambda i: H.at(p.data, i) == lerp(H, A, B, t, i)), b),
        lambda b: H.Implies(H.forall(n, lambda i: H.at(p.data, i) == H.at(q.data, i)), H.Not(b))))
    v, cats = H.warns(lambda: s.t([p, q] if first else [q, p]))
    H.check('shape', H.shape_is(v, 2))
    H.check('nan', H.is_nan(H.at(v, 1 if first else 0)))
    H.check('the-other', H.close(H.at(v, 0 if first else 1), t))
    H.check('warned', H.load('skcurve._geomalg').GeometryAlgorithmsWarning in cats)


@contract('C07', functions=('Segment.reverse', 'Segment.p1', 'Segment.p2') + PT)
def reversal(H):
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    r = s.reverse()
    H.check('is-segment', isinstance(r, H.sk.Segment))
    for i in H.each(n):
        H.check('ends-swapped', H.And(H.exact(H.at(r.p1.data, i), H.at(B, i)), H.exact(H.at(r.p2.data, i), H.at(A, i))))
        H.check('receiver', H.And(H.exact(H.at(s.p1.data, i), H.at(A, i)), H.exact(H.at(s.p2.data, i), H.at(B, i))))
    t = H.real('t', -4, 4)
    p, q = s.point(t), r.point(1 - t)
    for i in H.each(n):
        H.check('same-point', H.close(H.at(q.data, i), H.at(p.data, i), scale=1e2))


@contract('C07', functions=('Segment.data', 'Segment.ndim', 'Segment.seglen', 'Segment.dot', 'Segment.direction', 'Segment.to_curve',
                            'Segment.singular'))
def of_the_end_points(H):
    """Direction, length, data, dot, dimension and the curve of a segment."""
    n = H.size('n', 2)
    s, A, B = mkseg(H, 's', n)
    H.check('ndim', s.ndim == n)
    H.check('data-shape', H.shape_is(s.data, 2, n))
    H.check('direction', H.And(isinstance(s.direction, H.sk.Point), s.direction.ndim == n))
    c = s.to_curve()
    H.check('curve', isinstance(c, H.sk.Curve))
    H.check('curve-size', H.And(c.size == 2, c.ndim == n, not c.isparametric))
    H.check('curve-dtype', H.is_dtype(c, 'float64'))
    for i in H.each(n):
        a, b = H.at(A, i), H.at(B, i)
        H.check('data', H.And(H.exact(H.at(s.data, 0, i), a), H.exact(H.at(s.data, 1, i), b)))
        H.check('curve-points', H.And(H.exact(H.at(c.data, 0, i), a), H.exact(H.at(c.data, 1, i), b)))
        H.check('direction-coordinate', H.close(H.at(s.direction.data, i), b - a))
    dd = H.sum(n, lambda i: (H.at(B, i) - H.at(A, i)) * (H.at(B, i) - H.at(A, i)))
    ab = H.sum(n, lambda i: H.at(A, i) * H.at(B, i))
    sc = None if H.symbolic else float(sum(abs(x * y) for x, y in zip(A, B)))
    H.check('length', H.close(s.seglen, H.sqrt(dd)))
    H.check('dot', H.close(s.dot, ab, scale=sc))
    eq = H.forall(n, lambda i: H.abs(H.at(A, i) - H.at(B, i)) <= 1e-8 + 1e-5 * H.abs(H.at(B, i)))
    H.check('singular', H.Iff(s.singular, eq))


@contract('C07', functions=('Segment.__init__',))
def invalid_segments(H):
    n, k = H.size('n', 1), H.size('k', 1)
    p, q = H.sk.Point(H.array('p', n)), H.sk.Point(H.array('q', k))
    if H.decide(n == k):
        s = H.sk.Segment(p, q)
        H.check('same-dimension', s.ndim == n)
    else:
        H.raises('different-dimensions', ValueError, lambda: H.sk.Segment(p, q))
    bad = H.choice('bad', (None, 1.0, [1.0, 2.0], 'p'))
    H.raises('not-a-point', TypeError, lambda: H.sk.Segment(p, bad))
    H.raises('not-a-point-first', TypeError, lambda: H.sk.Segment(bad, p))
    H.raises('no-coordinates', ValueError, lambda: H.sk.Segment(H.sk.Point([]), H.sk.Point([])))


@contract('C07', functions=PT + ('_numeric.as_inexact',))
def integer_points(H):
    """Segments of integer points of any integer type: point, length, direction and the parameter of a point."""
    d = int_dtype(H)
    n = H.size('n', 1)
    s, f = int_segments(H, 's', n, d)
    t = H.real('t', -3, 3)
    p, q = s.point(t), f.point(t)
    H.check('length', H.close(s.seglen, f.seglen))
    for i in H.each(n):
        H.check('direction', H.close(H.at(s.direction.data, i), H.at(f.direction.data, i)))
        H.check('point', H.close(H.at(p.data, i), H.at(q.data, i)))
    if not H.symbolic:
        H.check('list', all(H.same_array(x.data, y.data) for x, y in zip(s.point([t, 0, 1]), f.point([t, 0, 1]))))
        for x, y in ((s.p1, f.p1), (s.p2, f.p2)):
            u, v = s.t(x), f.t(y)
            H.check('t', H.same_value(u, v))


@contract('C07', functions=TT, deductive=False, bound='up to 6 points at integer parameters up to 2^24, integer coordinates')
def on_and_off_the_line(H):
    """In one sequence, the points of the line have their parameters, near or far, and only the other ones have nan."""
    np, sk = H.np, H.sk
    n, k = H.size('n', 2, 5), H.size('k', 1, 6)
    A, D = (H.array(x, n, 'int64', kind=('int', -4, 5)).astype('float64') for x in 'ad')
    H.assume(bool(D.any()))
    s = sk.Segment(sk.Point(A), sk.Point(A + D))
    ps, want = [], []
    for j in range(k):
        t = float(H.int('t', -3, 3) * H.choice('far', (1, 1, 1000, 2 ** 20, 2 ** 24)))
        x = A + t * D
        off = H.choice('off', (False, False, True))
        if off:
            e = np.zeros(n)
            e[H.int('axis', 0, n - 1)] = (1 + abs(t)) * H.choice('side', (-1.0, 1.0))
            r = np.array([D, x + e - A])
            if np.linalg.matrix_rank(r, tol=1e-6 * np.abs(r).max()) < 2:
                off = False
            else:
                x = x + e
        ps.append(sk.Point(x))
        want.append(float('nan') if off else t)
    u, cats = H.warns(lambda: s.t(ps))
    H.check('shape', H.shape_is(u, k))
    for j in range(k):
        H.check('nan-only-off-the-line', bool(np.isnan(u[j])) == bool(np.isnan(want[j])))
        H.check('parameter', H.close(H.at(u, j), want[j], scale=2.0 ** 24))
