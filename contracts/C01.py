from pydv.contract import contract
from common import mkcurve, mkpoint, mkseg, frames, unchanged

DT = ('float64', 'float32', 'int64')
REQ = (None, 'float64', 'int64', 'float32')


def number(H, dtype):
    return 7 if dtype.startswith('int') else 7.5


def overwrite(H, a, dtype):
    """The caller writes into its own array."""
    a[...] = a * 0 + number(H, dtype)


def holds(H, tag, a, P, m, n=None):
    """The array a (of an object) holds P."""
    if n is None:
        for i in H.each(m):
            H.check(tag, H.exact(H.at(a, i), P(i)))
        return
    for i, j in H.each(m, n):
        H.check(tag, H.exact(H.at(a, i, j), P(i, j)))


def cast(H, req, dtype, x):
    """The value x of the given dtype as a value of the requested one."""
    if req is None or req.startswith('float') and not (req == 'float32' and dtype == 'float64'):
        return x
    return None


def closed(H, tag, a):
    """The array cannot be written."""
    H.readonly(tag + '-readonly', a)
    if not H.symbolic:
        H.raises(tag + '-write-rejected', ValueError, lambda: a.__setitem__(Ellipsis, 0))
        H.raises(tag + '-augmented-write-rejected', ValueError, lambda: a.__iadd__(1))


# ---------------------------------------------------------------- construction
@contract('C01', functions=('Point.__init__', 'Point.data'))
def point_isolated(H):
    """A point built from an array (of any dtype, also a strided view) is not changed by writing into the array."""
    dtype = H.choice('dtype', DT)
    n = H.size('n', 1)
    x = H.array('x', n, dtype)
    src = H.choice('source', ('array', 'every-second', 'backwards', 'column'))
    if src == 'array':
        b = x.copy()
        v = b
        at = lambda i: H.at(x, i)
    elif src == 'every-second':
        b = x.copy()
        v = b[::2]
        at = lambda i: H.at(x, 2 * i)
    elif src == 'backwards':
        b = x.copy()
        v = b[::-1]
        at = lambda i: H.at(x, n - 1 - i)
    else:
        b = H.array('a', (n, 2), dtype).copy()
        y = b.copy()
        v = b[:, 1]
        at = lambda i: H.at(y, i, 1)
    req = H.choice('request', (None, 'same', 'float64'))
    k = v.shape[0]
    p = H.sk.Point(v, dtype=dtype if req == 'same' else req)
    q = H.sk.Point(p)
    H.check('dtype', H.is_dtype(p.data, dtype if req == 'same' else 'float64'))
    H.isolated('isolated', p.data, b)
    H.isolated('isolated-copy', q.data, b, p.data)
    overwrite(H, b, dtype)
    for o in (p, q):
        closed(H, 'data', o.data)
        holds(H, 'coordinates', o.data, at, k)


@contract('C01', functions=('Curve.__init__', 'Curve.data', 'Curve.t', '_utils.as2d'))
def curve_isolated(H):
    """A curve built from arrays (every dtype, axis, also views) is not changed by writing into them."""
    dtype = H.choice('dtype', DT)
    m, n = H.size('m', 1), H.size('n', 2)
    A, T = H.array('a', (m, n), dtype), H.array('t', m)
    src = H.choice('source', ('rows', 'columns', 'transposed', 'view', 'vectors'))
    t = T.copy()
    req = H.choice('request', (None, 'same', 'float64'))
    k = {} if req is None else dict(dtype=dtype if req == 'same' else req)
    if src == 'rows':
        b = A.copy()
        c = H.sk.Curve(b, tdata=t, **k)
    elif src == 'columns':
        b = A.T.copy()
        c = H.sk.Curve(b, tdata=t, axis=1, **k)
    elif src == 'transposed':
        b = A.T.copy()
        c = H.sk.Curve(b.T, tdata=t, **k)
    elif src == 'view':
        b = H.np.hstack([A, A])
        c = H.sk.Curve(b[:, :n], tdata=t, **k)
    else:
        H.assume(n == 2)
        b = A.T.copy()
        c = H.sk.Curve([b[0], b[1]], tdata=t, **k)
        n = 2
    o = dtype if req == 'same' or req is None and src != 'vectors' else 'float64'
    H.check('dtype', H.is_dtype(c.data, o))
    H.isolated('isolated', c.data, b)
    H.isolated('isolated-parameter', c.t, t)
    overwrite(H, b, dtype)
    overwrite(H, t, 'float64')
    closed(H, 'data', c.data)
    closed(H, 'parameter', c.t)
    H.check('shape', H.shape_is(c.data, m, n))
    holds(H, 'coordinates', c.data, lambda i, j: H.at(A, i, j), m, n)
    holds(H, 'parameter', c.t, lambda i: H.at(T, i), m)


@contract('C01', functions=('Curve.__init__',))
def padded_isolated(H):
    """The same for a curve that is padded to more dimensions, and for an integer parameter vector."""
    dtype = H.choice('dtype', DT)
    m, n = H.size('m', 1), H.size('n', 2)
    A, T = H.array('a', (m, n), dtype), H.array('t', m, 'int64')
    more = H.choice('more', (0, 1, 2))
    b, t = A.copy(), T.copy()
    c = H.sk.Curve(b, tdata=t, ndmin=n + more)
    H.isolated('isolated', c.data, b)
    H.isolated('isolated-parameter', c.t, t)
    overwrite(H, b, dtype)
    overwrite(H, t, 'int64')
    closed(H, 'data', c.data)
    closed(H, 'parameter', c.t)
    holds(H, 'coordinates', c.data, lambda i, j: H.If(j < n, H.at(A, i, j), 0) if more == 0 or H.decide(j < n) else 0, m, n + more)
    holds(H, 'parameter', c.t, lambda i: H.at(T, i), m)


@contract('C01', functions=('Curve.__init__', 'Curve.__copy__', 'Curve.__deepcopy__', 'Point.__copy__', 'Point.__deepcopy__'))
def copies_isolated(H):
    """Copies cannot be written, and hold the same values."""
    import copy
    cv = mkcurve(H, dtypes=DT)
    p, a = mkpoint(H, 'p', cv.n)
    how = H.choice('how', ('copy', 'deepcopy', 'constructor'))
    f = dict(copy=copy.copy, deepcopy=copy.deepcopy, constructor=lambda x: type(x)(x))[how]
    d, q = f(cv.c), f(p)
    closed(H, 'curve', d.data)
    closed(H, 'point', q.data)
    if cv.param:
        closed(H, 'parameter', d.t)
    unchanged(H, 'source', cv)
    holds(H, 'copied', d.data, cv.P, cv.m, cv.n)


# ---------------------------------------------------------------- what is reached through an object
@contract('C01', functions=('CurvePoint.__init__', 'CurveSegment.__init__', 'Curve.segments', 'Segment.__init__', 'Segment.data', 'Curve.values',
                            'Curve.__getitem__'))
def parts_closed(H):
    """Points, segments, sub-curves and coordinate values reached through a curve cannot be used to change it."""
    cv = mkcurve(H, lo=2, dtypes=DT)
    i = H.int('i', -cv.m, cv.m - 1)
    p = cv.c[i]
    closed(H, 'point', p.data)
    s = cv.c.segments[H.int('s', 0, cv.m - 2)]
    closed(H, 'first-end', s.p1.data)
    closed(H, 'second-end', s.p2.data)
    b = s.data
    H.isolated('isolated-segment-data', b, s.p1.data, s.p2.data, cv.c.data)
    closed(H, 'values', cv.c.values(H.int('axis', -cv.n, cv.n - 1)))
    if H.choice('reach', ('sub-curve', 'first-coordinates')) == 'sub-curve':
        lo, hi = H.int('lo', -cv.m, cv.m), H.int('hi', -cv.m, cv.m)
        d = cv.c[lo:hi]
        closed(H, 'sub-curve', d.data)
        if cv.param:
            closed(H, 'sub-curve-parameter', d.t)
    else:
        q = p[:2]
        closed(H, 'point-slice', q.data if isinstance(q, H.sk.Point) else q)
    unchanged(H, 'source', cv)


@contract('C01', functions=('Point._op', 'Point.__getitem__'))
def point_results_closed(H):
    n = H.size('n', 1)
    p, a = mkpoint(H, 'p', n)
    q, b = mkpoint(H, 'q', n)
    x = H.real('x')
    H.assume(x != 0)
    op = H.choice('op', range(8))
    if op in (6, 7):
        H.assume(H.forall(n, lambda i: H.at(b, i) != 0))
    r = (lambda: p + q, lambda: p - q, lambda: p + x, lambda: x - p, lambda: p * x, lambda: p / x, lambda: p / q, lambda: p // q)[op]()
    H.check('is-point', isinstance(r, H.sk.Point))
    closed(H, 'result', r.data)
    H.isolated('isolated', r.data, p.data, q.data)
    r = p
    r += q
    H.check('augmented-assignment-makes-a-new-point', r is not p)
    holds(H, 'operand', p.data, lambda i: H.at(a, i), n)


# ---------------------------------------------------------------- operations with array arguments
@contract('C01', functions=('Curve.insert', 'Curve.delete', 'Curve.append', 'Curve.__getitem__', 'Curve.insertdim', 'Curve.appenddim', 'Curve.deletedim',
                            'Curve.reverse', 'Curve.__add__', 'Curve.coorientplane'))
def edits_leave_everything_unchanged(H):
    """Every edit returns a new closed curve that shares no storage with its operands, and changes neither of them."""
    cv = mkcurve(H, lo=1, dtypes=('float64', 'int64'))
    ov = mkcurve(H, 'o', ndim=cv.n, dtypes=(cv.dtype,))
    p, a = mkpoint(H, 'p', cv.n, cv.dtype)
    V = H.array('v', cv.m, cv.dtype)
    c = cv.c
    op = H.choice('op', ('insert-point', 'insert-curve', 'append-point', 'append-curve', 'join', 'delete', 'reverse', 'insertdim', 'appenddim', 'deletedim',
                         'slice', 'rows', 'mask'))
    rest = []
    if op == 'insert-point':
        d, rest = c.insert(H.int('at', 0, cv.m), p), [p.data]
    elif op == 'insert-curve':
        d, rest = c.insert(H.int('at', 0, cv.m), ov.c), [ov.c.data]
    elif op == 'append-point':
        d, rest = c.append(p), [p.data]
    elif op == 'append-curve':
        d, rest = c.append(ov.c), [ov.c.data]
    elif op == 'join':
        d, rest = c + ov.c, [ov.c.data]
    elif op == 'delete':
        d = c.delete(H.int('at', 0, cv.m - 1))
    elif op == 'reverse':
        d = c.reverse()
    elif op == 'insertdim':
        d, rest = c.insertdim(H.int('at', 0, cv.n), V), [V]
    elif op == 'appenddim':
        d, rest = c.appenddim(V), [V]
    elif op == 'deletedim':
        H.assume(cv.n > 2)
        d = c.deletedim(H.int('at', 0, cv.n - 1))
    elif op == 'slice':
        d = c[H.int('lo', 0, cv.m):]
    elif op == 'rows':
        ix = H.array('rows', H.size('k', 0), 'int64', kind=('int', 0, cv.m))
        d, rest = c[ix], [ix]
    else:
        ix = H.array('mask', cv.m, 'bool')
        d, rest = c[ix], [ix]
    closed(H, 'result', d.data)
    H.isolated('isolated', d.data, c.data, *rest)
    if d.isparametric:
        closed(H, 'result-parameter', d.t)
        H.isolated('isolated-parameter', d.t, c.data, *([c.t] if cv.param else []))
    unchanged(H, 'receiver', cv)
    unchanged(H, 'argument', ov)


@contract('C01', functions=('Segment.point', 'Segment.t', 'Segment.reverse', 'Segment.to_curve', 'Segment.overlap', 'Segment.shortest_segment',
                            'Segment.distance', 'Segment.collinear', 'Segment.coplanar', 'Segment.parallel', 'Segment.angle',
                            '_geomalg.collinear_points', '_geomalg.coplanar_points'), deductive=False,
          bound='segments in up to 13 dimensions; the deductive frames are those of the contracts of C07, C08, C10, C12')
def segment_operations(H):
    """No operation of segments changes the segments, the points or the arrays it gets."""
    n = H.size('n', 2)
    s, a, b = mkseg(H, 's', n)
    o, c, d = mkseg(H, 'o', n)
    p, e = mkpoint(H, 'p', n)
    t = H.array('t', H.size('k', 0, 5))
    out = [s.reverse().p1, s.reverse().p2, s.direction]
    out += list(s.point(t))
    out += [s.to_curve()]
    s.t(p)
    s.t([p, s.p1])
    for f in (s.collinear, s.coplanar, s.distance):
        f(p)
        f(o)
    s.parallel(o), s.angle(o), s.overlap(o), s.singular, s.seglen, s.dot
    x = s.shortest_segment(o)
    out += [x.p1, x.p2]
    x = s.shortest_segment(p)
    out += [x.p1, x.p2]
    for m in ('exact', 'almost'):
        s.intersect(o, method=m)
    for r in out:
        closed(H, 'result', r.data)
    for x, y in ((s.p1, a), (s.p2, b), (o.p1, c), (o.p2, d), (p, e)):
        H.check('operand', (x.data == y).all())


HIST = ('tangent', 'cumarclen', 'curvature', 'torsion', 'arclen', 'segments', 'insert', 'delete', 'slice', 'interpolate', 'smooth', 'unique', 'nonsingular',
        'intersect', 'self-intersect', 'reverse', 'coorientplane', 'join', 'contains', 'index', 'values', 'insertdim', 'subcurve', 'copy')


@contract('C01', functions=('Curve', 'Point', 'Segment', 'CurvePoint', 'CurveSegment'), deductive=False,
          bound='histories of up to 12 operations on curves of 4..12 points in 2..4 dimensions; arguments are re-read after every operation')
def histories(H):
    """After every operation of a random history all objects and arrays that exist hold what they held before."""
    import copy
    import warnings
    np = H.np
    n = H.size('n', 2, 4)
    dt = H.choice('dtype', ('float64', 'float32', 'int64'))
    cv = mkcurve(H, lo=4, hi=12, ndim=n, dtypes=(dt,), tkind='inc')
    live = [cv.c]
    kept = []

    def note(name, a):
        if isinstance(a, np.ndarray) and a.dtype != object:
            kept.append((name, a, a.copy()))

    def obj(name, x):
        if isinstance(x, H.sk.Curve):
            closed(H, 'data', x.data)
            note(name + '.data', x.data)
            if x.isparametric:
                closed(H, 'parameter', x.t)
                note(name + '.t', x.t)
            live.append(x)
        elif isinstance(x, H.sk.Point):
            closed(H, 'point', x.data)
            note(name, x.data)
    obj('c', cv.c)
    for k in range(H.size('steps', 1, 12)):
        c = live[H.int('which%d' % k, 0, 99) % len(live)]
        op = H.choice('op%d' % k, HIST)
        j = H.int('arg%d' % k, 0, 999)
        z = c.size
        ok = lambda *ex: ex
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    if op in ('tangent', 'cumarclen', 'curvature', 'torsion', 'arclen', 'segments'):
                        getattr(c, op)
                        r = None
                    elif op == 'insert':
                        p = np.arange(c.ndim).astype(c.dtype)
                        note('point', p)
                        q = H.sk.Point(p, dtype=c.dtype)
                        r = c.insert(j % (z + 1), q)
                        p[...] = 5
                        kept.pop()
                        obj('q', q)
                    elif op == 'delete':
                        r = c.delete(j % z)
                    elif op == 'slice':
                        ix = np.array([j % z, (j // 7) % z, 0])
                        note('indices', ix)
                        r = c[ix] if j % 2 else c[j % z::(1, -1)[j // 2 % 2]]
                    elif op == 'interpolate':
                        g = np.linspace(c.t[0], c.t[-1], 2 + j % 9)
                        note('grid', g)
                        m = ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'csaps')[j % 6]
                        r = c.interpolate(g, method=m)
                    elif op == 'smooth':
                        r = c.smooth('savgol', window_length=3, polyorder=1) if j % 2 else c.smooth('window', window_size=3)
                    elif op == 'unique':
                        r = c.unique()
                    elif op == 'nonsingular':
                        r = c.nonsingular()
                    elif op == 'intersect':
                        o = live[j % len(live)]
                        r = o.intersect(c, method=('exact', 'almost')[j % 2]) and None
                    elif op == 'self-intersect':
                        r = c.intersect(method=('exact', 'almost')[j % 2]) and None
                    elif op == 'reverse':
                        r = c.reverse()
                    elif op == 'coorientplane':
                        r = c.coorientplane()
                    elif op == 'join':
                        r = c + live[j % len(live)]
                    elif op == 'contains':
                        r = (c[j % z] in c, live[j % len(live)] in c) and None
                    elif op == 'index':
                        r = (c.index(c[j % z]), c.count(c[j % z])) and None
                    elif op == 'values':
                        v = c.values(j % c.ndim)
                        closed(H, 'values', v)
                        note('values', v)
                        r = None
                    elif op == 'insertdim':
                        v = np.arange(z).astype(c.dtype)
                        note('column', v)
                        r = c.insertdim(j % (c.ndim + 1), v)
                        v[...] = 3
                        kept.pop()
                    elif op == 'subcurve':
                        p, q = c[j % z], c[(j // 5) % z]
                        obj('p', p)
                        r = p.subcurve(q)
                    else:
                        r = (copy.copy, copy.deepcopy)[j % 2](c)
        except (ValueError, IndexError, TypeError, ZeroDivisionError, np.linalg.LinAlgError, H.sk.InterpolationError, H.sk.SmoothingError,
                H.load("skcurve._intersect").IntersectionError):
            r = None
        obj(op, r)
        for name, a, old in kept:
            H.check('unchanged-after-every-operation', np.array_equal(a, old) or ((a == old) | ((a != a) & (old != old))).all())
