import itertools
from pydv.contract import contract
from common import mkseg, exact_vec, param, affine_point, int_curves, int_dtype, int_segments

COL = ('Segment.collinear', '_geomalg.collinear_points')
COP = ('Segment.coplanar', '_geomalg.coplanar_points')
PAR = ('Segment.parallel', '_geomalg.parallel_segments')
ANG = ('Segment.angle', '_geomalg.segments_angle')
OVL = ('Segment.overlap', '_geomalg.overlap_segments')
GEOM = (None, 'skcurve._geomalg')


def line(H, k, nlo=1):
    """k points on one line."""
    n = H.size('n', nlo)
    A, D = exact_vec(H, 'a', n, far=True), exact_vec(H, 'd', n)
    T = [param(H, 't%d' % i) for i in range(k)]
    return n, A, D, T, [affine_point(H, n, A, (t, D))[0] for t in T]


@contract('C12', functions=COL)
def point_on_the_line(H):
    """A point of the line through the ends of a segment is collinear with it (any point is, if it is singular)."""
    n, A, D, T, (p, q, r) = line(H, 3)
    H.check('collinear', H.sk.Segment(p, q).collinear(r))
    H.check('collinear-with-singular', H.sk.Segment(p, p).collinear(q))


@contract('C12', functions=COL)
def segment_on_the_line(H):
    n, A, D, T, (p, q, r, s) = line(H, 4)
    a, b = H.sk.Segment(p, q), H.sk.Segment(r, s)
    H.check('collinear', a.collinear(b))


def apart(H, n, p, q, lim=1):
    """The points are not equal as the package compares them."""
    x, y = p.data, q.data
    H.assume(H.exists(n, lambda i: H.abs(H.at(x, i) - H.at(y, i)) > 1e-7 + 1e-4 * H.abs(H.at(y, i))))
    H.assume(H.exists(n, lambda i: H.abs(H.at(x, i) - H.at(y, i)) > 1e-7 + 1e-4 * H.abs(H.at(x, i))))


def triple(H, n, p, q, r):
    """The three points are clearly not on one line: a minor of their differences is not zero."""
    a, b = H.int('a', 0, n - 1), H.int('b', 0, n - 1)
    H.minor = a, b
    H.minors(a, b)
    x, y, z = p.data, q.data, r.data
    u = lambda i: H.at(y, i) - H.at(x, i)
    w = lambda i: H.at(z, i) - H.at(x, i)
    minor = u(a) * w(b) - u(b) * w(a)
    if H.symbolic:
        H.assume(minor != 0)
    else:
        scale = max(H.np.abs(v).max() for v in (x, y, z)) ** 2
        H.assume(abs(minor) > 1e-9 * scale and scale > 0)


def three(H):
    n = H.size('n', 2)
    ps = [H.sk.Point(exact_vec(H, c, n)) for c in 'pqr']
    triple(H, n, *ps)
    for i in range(3):
        for j in range(i):
            apart(H, n, ps[i], ps[j])
    return n, ps


@contract('C12', functions=COL)
def point_off_the_line(H):
    """Three points that are not on one line are not collinear, whichever two of them are the ends of the segment."""
    n, ps = three(H)
    p, q, r = H.choice('order', ((0, 1, 2), (1, 0, 2), (0, 2, 1), (1, 2, 0)))
    H.check('not-collinear', H.Not(H.sk.Segment(ps[p], ps[q]).collinear(ps[r])))


def _off(H, third, swap):
    n, ps = three(H)
    w = H.sk.Point(exact_vec(H, 'w', n))
    p, q, r = ps
    a, b = H.minor

    def M(x, y, z):
        u, v = (lambda i: H.at(y.data, i) - H.at(x.data, i)), (lambda i: H.at(z.data, i) - H.at(x.data, i))
        return u(a) * v(b) - u(b) * v(a)
    if H.symbolic:
        for x in (p, q, r):
            H.decide(H.And(H.at(x.data, a) == H.at(w.data, a), H.at(x.data, b) == H.at(w.data, b)))
    H.arith('areas', M(p, q, r) == M(w, p, q) + M(w, q, r) + M(w, r, p))
    H.arith('area', M(p, q, r) == M(r, p, q))
    s, o = H.sk.Segment(p, q), (H.sk.Segment(r, w) if third == 'first' else H.sk.Segment(w, r))
    H.check('not-collinear', H.Not(o.collinear(s) if swap else s.collinear(o)))


@contract('C12', functions=COL)
def segment_off_the_line_1(H):
    """Segments with three ends that are not on one line are not collinear."""
    _off(H, 'first', False)


@contract('C12', functions=COL)
def segment_off_the_line_2(H):
    """The same, the third point being the second end."""
    _off(H, 'second', False)


@contract('C12', functions=COL)
def segment_off_the_line_3(H):
    """The same with the segments swapped."""
    _off(H, 'first', True)


@contract('C12', functions=COL)
def segment_off_the_line_4(H):
    """The same with the segments swapped."""
    _off(H, 'second', True)


@contract('C12', functions=COL + COP + ANG)
def other_arguments(H):
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    bad = H.choice('bad', (None, 1.0, 'x', [1.0, 2.0]))
    H.raises('collinear', TypeError, lambda: s.collinear(bad))
    H.raises('coplanar', TypeError, lambda: s.coplanar(bad))
    H.raises('angle', TypeError, lambda: s.angle(bad))


# ---------------------------------------------------------------- coplanar
@contract('C12', functions=COP)
def on_a_plane(H):
    """Points A + t U + s V are coplanar; so are any points in the plane and any three points."""
    n = H.size('n', 2)
    A, U, V = exact_vec(H, 'a', n, far=True), exact_vec(H, 'u', n), exact_vec(H, 'v', n)
    ps = [affine_point(H, n, A, (param(H, 't%d' % i), U), (param(H, 's%d' % i), V))[0] for i in range(4)]
    s = H.sk.Segment(ps[0], ps[1])
    H.check('segments', s.coplanar(H.sk.Segment(ps[2], ps[3])))
    H.check('segment-and-point', s.coplanar(ps[2]))


@contract('C12', functions=COP)
def three_points(H):
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    H.check('three-points', s.coplanar(H.sk.Point(H.array('p', n))))


@contract('C12', functions=COP)
def in_two_dimensions(H):
    n = H.size('n', 1, 2)
    s, A, B = mkseg(H, 's', n)
    o, C, D = mkseg(H, 'o', n)
    H.check('plane', s.coplanar(o))


@contract('C12', functions=COP)
def off_a_plane(H):
    """Four points with a non-zero minor of their differences are not coplanar, in any order."""
    n = H.size('n', 3)
    v = [exact_vec(H, c, n) for c in 'pqrw']
    a, b, c = H.int('a', 0, n - 1), H.int('b', 0, n - 1), H.int('c', 0, n - 1)
    d = [[H.at(v[k], i) - H.at(v[3], i) for i in (a, b, c)] for k in range(3)]
    det = (d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0])
           + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]))
    if H.symbolic:
        H.assume(det != 0)
    else:
        m = max(abs(x).max() for x in v)
        H.assume(m > 0 and abs(det) > 1e-9 * m ** 3)
    p = [H.sk.Point(x) for x in v]
    o = H.choice('order', ((0, 1, 2, 3), (2, 3, 0, 1), (1, 0, 2, 3), (0, 1, 3, 2), (0, 2, 1, 3)))
    H.check('not-coplanar', H.Not(H.sk.Segment(p[o[0]], p[o[1]]).coplanar(H.sk.Segment(p[o[2]], p[o[3]]))))


@contract('C12', functions=('Curve.isplane', '_geomalg.coplanar_points'))
def curve_on_a_plane(H):
    n, m = H.size('n', 2), H.size('m', 0)
    A, U, V = exact_vec(H, 'a', n, far=True), exact_vec(H, 'u', n), exact_vec(H, 'v', n)

    def ints():
        return [float(H.rng.randint(-8, 8)) for _ in range(int(m))]
    t, s = H.array('t', m, fill=ints), H.array('s', m, fill=ints)
    c = H.sk.Curve(H.build((m, n), lambda k, i: H.at(A, i) + H.at(t, k) * H.at(U, i) + H.at(s, k) * H.at(V, i)), ndmin=None)
    H.check('plane', c.isplane)


@contract('C12', functions=('_geomalg.collinear_points', '_geomalg.coplanar_points'), deductive=False,
          bound='3 to 9 points of up to 13 dimensions with exactly representable coordinates')
def many_points(H):
    """The functions behind the predicates of segments take any number of points: one point off the line (plane) of the others,
    whichever it is, is enough for them not to be collinear (coplanar)."""
    G = H.load('skcurve._geomalg')
    n, m = H.size('n', 3), H.size('m', 5, 9)
    A, U, V = [exact_vec(H, c, n) for c in 'auv']
    a, b, c = [A.astype('float64') for A in (A, U, V)]
    w = lambda x, y: (x @ x) * (y @ y) - (x @ y) ** 2
    H.assume(w(b, c) > 0)
    t = [H.int('t', -8, 8) for _ in range(m)]
    s = [H.int('s', -8, 8) for _ in range(m)]
    k = H.int('odd', 0, m - 1)
    for which, name, f in ((0, 'collinear', 'collinear_points'), (1, 'coplanar', 'coplanar_points')):
        f = getattr(G, f, None)
        if f is None:
            continue
        base = H.np.array([a + x * b + (y * c if which else 0) for x, y in zip(t, s)])
        H.check(name, bool(f([H.sk.Point(x) for x in base])) and bool(f(base)))
        rest = [base[i] - base[(k + 1) % m] for i in range(m) if i != k]
        N = c if which == 0 else normal(H, b, c)
        if N is None or not any(x @ x for x in rest):
            continue
        r = H.np.linalg.matrix_rank(H.np.array(rest))
        if r != which + 1:
            continue
        out = base.copy()
        out[k] += N
        H.check('not-' + name, not f([H.sk.Point(x) for x in out]))


def normal(H, b, c):
    """An integer vector off the plane of two others (None: not found)."""
    for e in H.np.eye(len(b)):
        if H.np.linalg.matrix_rank(H.np.array([b, c, e])) == 3:
            return e * H.unit
    return None


# ---------------------------------------------------------------- parallel and angle
def two(H, nlo=1):
    n = H.size('n', nlo)
    s, A, B = mkseg(H, 's', n)
    o, C, D = mkseg(H, 'o', n)
    return n, s, o, (lambda i: H.at(B, i) - H.at(A, i)), (lambda i: H.at(D, i) - H.at(C, i))


@contract('C12', functions=PAR)
def parallel_directions(H):
    """Segments with directions D and k D are parallel, at any position; singular segments are parallel to any."""
    n = H.size('n', 1)
    A, C, D = exact_vec(H, 'a', n, far=True), exact_vec(H, 'c', n, far=True), exact_vec(H, 'd', n)
    k = param(H, 'k')
    P, Q = H.sk.Point(A), H.sk.Point(C)
    s = H.sk.Segment(P, affine_point(H, n, A, (1, D))[0])
    o = H.sk.Segment(Q, affine_point(H, n, C, (k, D))[0])
    dd = H.sum(n, lambda i: H.at(D, i) * H.at(D, i))
    H.sq_nonneg(n, lambda i: H.at(D, i))
    H.check('parallel', s.parallel(o))
    H.check('parallel-swapped', o.parallel(s))
    H.check('singular', H.And(s.parallel(H.sk.Segment(Q, Q)), H.sk.Segment(Q, Q).parallel(s)))


@contract('C12', functions=PAR)
def parallel_is_symmetric(H):
    """Swapping the segments, reversing or moving either of them or scaling both changes nothing;
    segments at an angle with sin^2 > 1e-9 are not parallel."""
    n, s, o, u, v = two(H)
    uu, uv, vv = [H.sum(n, f) for f in (lambda i: u(i) * u(i), lambda i: u(i) * v(i), lambda i: v(i) * v(i))]
    gram = uu * vv - uv * uv
    if not H.symbolic:
        H.assume(not 1e-12 < abs(gram) / (uu * vv + 1e-300) < 1e-9)
    r = s.parallel(o)
    H.check('swapped', H.Iff(o.parallel(s), r))
    H.check('reversed', H.Iff(s.reverse().parallel(o), r))
    H.check('reversed-other', H.Iff(s.parallel(o.reverse()), r))
    H.sq_nonneg(n, u)
    H.sq_nonneg(n, v)
    H.check('not-parallel', H.Implies(H.And(gram > 1e-9 * uu * vv, uu > 0, vv > 0), H.Not(r)))
    h = exact_vec(H, 'h', n)
    moved = H.sk.Segment(s.p1 + H.sk.Point(h), s.p2 + H.sk.Point(h))
    H.check('translated', H.Iff(moved.parallel(o), r))


@contract('C12', functions=PAR)
def parallel_scaled(H):
    n, s, o, u, v = two(H)
    uu, uv, vv = [H.sum(n, f) for f in (lambda i: u(i) * u(i), lambda i: u(i) * v(i), lambda i: v(i) * v(i))]
    H.sq_nonneg(n, u)
    H.sq_nonneg(n, v)
    k = H.real('k') if H.symbolic else 2.0 ** round(H.real('k', -30, 30))
    H.assume(k > 0)
    if not H.symbolic:
        H.assume(not 1e-12 < abs(uu * vv - uv * uv) / (uu * vv + 1e-300) < 1e-3)
    a, b = H.sk.Segment(s.p1 * k, s.p2 * k), H.sk.Segment(o.p1 * k, o.p2 * k)
    H.check('scaled', H.Iff(a.parallel(b), s.parallel(o)))


@contract('C12', functions=ANG)
def angle_between(H):
    """arccos(<u, v> / (|u| |v|)): in [0, pi], the same when swapped or translated, the supplement when one is reversed."""
    n, s, o, u, v = two(H)
    uu, uv, vv = [H.sum(n, f) for f in (lambda i: u(i) * u(i), lambda i: u(i) * v(i), lambda i: v(i) * v(i))]
    H.sq_nonneg(n, u)
    H.sq_nonneg(n, v)
    H.cauchy(n, u, v)
    H.assume(H.And(uu > (0 if H.symbolic else 1e-12), vv > (0 if H.symbolic else 1e-12)))
    a = H.num(s.angle(o))
    pi = H.np.pi
    e = 0 if H.symbolic else 1e-9
    H.check('range', H.And(a >= 0, a <= pi + e))
    if H.symbolic:
        H.check('zero-exactly-for-the-same-direction', H.Iff(a == 0, H.And(uv > 0, uv * uv == uu * vv)))
        H.check('pi-exactly-for-the-opposite-direction', H.Iff(a == pi, H.And(uv < 0, uv * uv == uu * vv)))
    near = lambda x, y: H.close(x, y) if H.symbolic else abs(x - y) < 1e-7
    if not H.symbolic:
        H.check('cosine', abs(H.np.cos(a) - uv / H.np.sqrt(uu * vv)) < 1e-9)
    H.check('swapped', near(H.num(o.angle(s)), a))
    H.check('reversed', near(H.num(s.reverse().angle(o)), pi - a))
    H.check('reversed-other', near(H.num(s.angle(o.reverse())), pi - a))
    H.check('both-reversed', near(H.num(s.reverse().angle(o.reverse())), a))


@contract('C12', functions=ANG)
def angle_of_singular(H):
    """No angle (nan, with a warning) if a segment degenerates into a point."""
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    p = H.sk.Point(H.array('p', n))
    z = H.sk.Segment(p, p)
    W = H.load('skcurve._geomalg').GeometryAlgorithmsWarning
    a, c = H.warns(lambda: s.angle(z))
    b, d = H.warns(lambda: z.angle(s))
    H.check('nan', H.And(H.is_nan(a), H.is_nan(b)))
    H.check('warning', W in c and W in d)


# ---------------------------------------------------------------- overlap
def mn(H, a, b):
    return H.If(a < b, a, b)


def mx(H, a, b):
    return H.If(a < b, b, a)


def monotone(H, d, T):
    for a in range(4):
        for b in range(a):
            x, y = T[a], T[b]
            H.arith('products', H.And(H.Implies(H.And(d > 0, x < y), x * d < y * d), H.Implies(H.And(d > 0, x > y), x * d > y * d),
                                      H.Implies(H.And(d < 0, x < y), x * d > y * d), H.Implies(H.And(d < 0, x > y), x * d < y * d)))


def common_part(H, T):
    a, b, c, d = T
    return mx(H, mn(H, a, b), mn(H, c, d)), mn(H, mx(H, a, b), mx(H, c, d))


def on_line(H):
    n = H.size('n', 1)
    A, D = exact_vec(H, 'a', n, far=True), exact_vec(H, 'd', n)
    f = H.int('f', 0, n - 1) if H.symbolic else int(H.np.abs(D).argmax())
    H.assume(H.at(D, f) != 0)
    T = [param(H, 't%d' % i) for i in range(4)]
    P = [affine_point(H, n, A, (t, D))[0] for t in T]
    return n, A, D, T, P, f


def by_first(fn):
    for k in range(4):
        def one(H, k=k):
            return fn(H, k)
        one.__name__, one.__doc__ = '%s_%d' % (fn.__name__, k), fn.__doc__
        contract('C12', functions=OVL)(one)
    return fn


@by_first
def overlap_is_the_common_part(H, first):
    """None, or the common part of the two segments, which are on one line (proof: one contract per least parameter)."""
    n, A, D, T, P, f = on_line(H)
    lo, hi = common_part(H, T)
    s, o = H.sk.Segment(P[0], P[1]), H.sk.Segment(P[2], P[3])
    if H.symbolic:
        # all orders of the parameters
        q = H.choice('order', [q for q in itertools.permutations(range(4)) if q[0] == first])
        H.assume(H.And(T[q[0]] <= T[q[1]], T[q[1]] <= T[q[2]], T[q[2]] <= T[q[3]]))
        a, b = sorted((0, 1), key=q.index)
        c, d = sorted((2, 3), key=q.index)
        lo = T[a] if q.index(a) > q.index(c) else T[c]
        hi = T[b] if q.index(b) < q.index(d) else T[d]
        monotone(H, H.at(D, f), T)
    r = s.overlap(o)
    if r is None:
        H.check('none-only-without-a-common-point', lo > hi)
        return
    H.check('none-without-a-common-point', lo <= hi)
    H.check('is-segment', isinstance(r, H.sk.Segment))
    H.check('dimension', r.ndim == n)
    L, R = (lambda i: H.at(A, i) + lo * H.at(D, i)), (lambda i: H.at(A, i) + hi * H.at(D, i))
    x, y = r.p1.data, r.p2.data
    tol = dict(scale=None if H.symbolic else H.mag)
    up = H.decide(H.And(H.close(H.at(x, f), L(f), **tol), H.close(H.at(y, f), R(f), **tol)))
    for i in H.each(n):
        a, b = H.at(x, i), H.at(y, i)
        if H.symbolic:
            H.decide(H.at(D, i) > 0), H.decide(H.at(D, i) < 0)
            monotone(H, H.at(D, i), T)
        H.check('ends', H.And(H.close(a, L(i) if up else R(i), **tol), H.close(b, R(i) if up else L(i), **tol)))


@contract('C12', functions=OVL, deductive=False, bound='collinear segments with exactly representable coordinates, up to 13 dimensions')
def overlap_checked(H):
    """The same with the check of collinearity; None for segments that are not collinear."""
    n, A, D, T, P, f = on_line(H)
    lo, hi = common_part(H, T)
    s, o = H.sk.Segment(P[0], P[1]), H.sk.Segment(P[2], P[3])
    r = s.overlap(o, check_collinear=True)
    q = s.overlap(o)
    H.check('same', (r is None) == (q is None) and (r is None or (r.p1 == q.p1 and r.p2 == q.p2)))
    for other in (o.overlap(s), s.reverse().overlap(o), s.overlap(o.reverse())):
        H.check('order', (other is None) == (q is None))
        if q is not None:
            H.check('same-part', (other.p1 == q.p1 and other.p2 == q.p2) or (other.p1 == q.p2 and other.p2 == q.p1))


@contract('C12', functions=OVL + COL)
def overlap_of_non_collinear(H):
    n, ps = three(H)
    w = H.sk.Point(exact_vec(H, 'w', n))
    H.callee(H.sk.Segment, 'collinear', 'C12/segment_off_the_line_1', lambda *a, **k: False)
    H.check('none', H.sk.Segment(ps[0], ps[1]).overlap(H.sk.Segment(ps[2], w), check_collinear=True) is None)


@contract('C12', functions=('Segment.collinear', 'Segment.coplanar', 'Segment.parallel', 'Segment.angle', 'Segment.overlap',
                            'Curve.isplane', '_numeric.as_inexact'), deductive=False, bound='every integer type, up to 13 dimensions')
def integer_points(H):
    """The relations of segments of integer points are those of the same numbers as floating point ones."""
    d = int_dtype(H)
    n = H.size('n', 1)
    s, f = int_segments(H, 's', n, d)
    if H.choice('like', (False, True)):
        u, g = s.reverse(), f.reverse()
    else:
        u, g = int_segments(H, 'u', n, d)
    p, q = (s.p1, f.p1) if H.choice('end', (False, True)) else (u.p2, g.p2)
    H.check('collinear', s.collinear(p) == f.collinear(q) and s.collinear(u) == f.collinear(g))
    H.check('parallel', s.parallel(u) == f.parallel(g))
    H.check('coplanar', s.coplanar(u) == f.coplanar(g))
    H.check('angle', H.same_value(s.angle(u), f.angle(g)))
    if f.collinear(g):
        o, w = s.overlap(u), f.overlap(g)
        H.check('overlap', (o is None) == (w is None))
        if o is not None:
            H.check('overlap-ends', H.same_array(o.p1.data, w.p1.data) and H.same_array(o.p2.data, w.p2.data))
    c, e, m, k = int_curves(H, 'c', d, hi=6)
    if k == 3 and m:
        H.check('plane', c.isplane == e.isplane)
