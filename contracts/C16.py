from pydv.contract import contract
from common import mkcurve, check_curve, unchanged, norm_index

VEC = ('firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'frenet1', 'frenet2', 'frenet3')
NUM = ('cumarclen', 'speed', 'curvature', 'torsion')


@contract('C16', functions=('CurvePoint.__init__', 'CurvePoint.idx', 'CurvePoint.t', 'CurvePoint.curve', 'Curve.__getitem__', 'Curve.t'))
def point_of_curve(H):
    cv = mkcurve(H, lo=1, dtypes=('float64', 'int64'))
    i = H.int('i', -cv.m, cv.m - 1)
    k = i + cv.m if H.decide(i < 0) else i
    p = cv.c[i]
    H.check('is-point', isinstance(p, H.sk.CurvePoint))
    H.check('index', H.exact(p.idx, k))
    H.check('dimension', p.ndim == cv.n)
    H.check('curve', p.curve is cv.c)
    for j in H.each(cv.n):
        H.check('coordinate', H.exact(H.at(p.data, j), cv.P(k, j)))
    H.check('t', H.exact(p.t, cv.T(k) if cv.param else H.at(cv.c.cumarclen, k)))
    H.readonly('readonly', p.data)
    q = H.sk.CurvePoint(cv.c, i)
    H.check('constructor', H.And(q.idx == k, H.forall(cv.n, lambda j: H.at(q.data, j) == cv.P(k, j))))
    unchanged(H, 'source', cv)


@contract('C16', functions=('CurvePoint.__init__', 'Curve.__getitem__'))
def point_index_out_of_range(H):
    cv = mkcurve(H)
    i = H.int('i', -cv.m - 6, cv.m + 6)
    H.assume(H.Or(i < -cv.m, i >= cv.m))
    H.raises('index-error', IndexError, lambda: cv.c[i])


@contract('C16', functions=('_diffgeom._maybe_curve_point',) + tuple('CurvePointFunctionMixin.' + n for n in VEC + NUM))
def derived_values(H):
    """A point's derived value is the curve's value at its position, for every derived property."""
    cv = mkcurve(H, lo=1, param=False)
    i = H.int('i', -cv.m, cv.m - 1)
    k = i + cv.m if H.decide(i < 0) else i
    name = H.choice('property', VEC + NUM)
    p = cv.c[i]
    base = 'firstderiv' if name == 'tangent' else name
    V = H.preset(cv.c, base, H.local(name, (cv.m, cv.n) if name in VEC else cv.m))
    v = getattr(p, name)
    if name in VEC:
        H.check(name + '-shape', H.shape_is(v, cv.n))
        for j in H.each(cv.n):
            H.check(name, H.exact(H.at(v, j), H.at(V, k, j)))
    else:
        H.check(name, H.exact(v, H.at(V, k)))
    unchanged(H, 'source', cv)


@contract('C16', functions=('Curve.segments', 'CurveSegment.__init__', 'CurveSegment.idx', 'CurveSegment.chordlen', 'CurveSegment.curve'))
def segments(H):
    cv = mkcurve(H, param=False, dtypes=('float64', 'int64'))
    S = cv.c.segments
    n = cv.m - 1 if H.decide(cv.m > 0) else 0
    H.check('count', H.len(S) == n)
    for i in H.each(n):
        s = S[i]
        H.check('is-segment', isinstance(s, H.sk.CurveSegment))
        H.check('index', H.exact(s.idx, i))
        H.check('curve', s.curve is cv.c)
        H.check('chord-length', H.exact(s.chordlen, H.at(cv.c.chordlen, i)))
        H.check('length', H.close(s.seglen, H.at(cv.c.chordlen, i)))
        H.check('point-indices', H.And(s.p1.idx == i, s.p2.idx == i + 1))
        for j in H.each(cv.n):
            H.check('first-point', H.exact(H.at(s.p1.data, j), cv.P(i, j)))
            H.check('second-point', H.exact(H.at(s.p2.data, j), cv.P(i + 1, j)))
    unchanged(H, 'source', cv)


@contract('C16', functions=('CurveSegment.__init__',))
def segment_of_curve(H):
    cv = mkcurve(H)
    i = H.int('i', -cv.m - 4, cv.m + 4)
    s, err = H.outcome(lambda: H.sk.CurveSegment(cv.c, i), ValueError)
    ok = H.And(i >= -(cv.m - 1), i < cv.m - 1)
    if err:
        H.check('rejected-only-outside', H.Not(ok))
    else:
        H.check('rejected-outside', ok)
        k = i + cv.m - 1 if H.decide(i < 0) else i
        H.check('index', H.exact(s.idx, k))
        for j in H.each(cv.n):
            H.check('first-point', H.exact(H.at(s.p1.data, j), cv.P(k, j)))
            H.check('second-point', H.exact(H.at(s.p2.data, j), cv.P(k + 1, j)))


@contract('C16', functions=('CurvePoint.subcurve', 'Curve.__getitem__'))
def subcurve(H):
    cv = mkcurve(H, lo=1, dtypes=('float64', 'int64'))
    i, k = H.int('i', 0, cv.m - 1), H.int('k', 0, cv.m - 1)
    how = H.choice('endpoint', ('default', True, False))
    p, q = cv.c[i], cv.c[k]
    r = p.subcurve(q) if how == 'default' else p.subcurve(q, endpoint=how)
    e = k if how is False else k + 1
    n = e - i if H.decide(e > i) else 0
    check_curve(H, 'slice', r, n, cv.n, lambda a, j: cv.P(i + a, j), (lambda a: cv.T(i + a)) if cv.param else None, cv.dtype)
    unchanged(H, 'source', cv)


@contract('C16', functions=('CurvePoint.subcurve',))
def subcurve_rejects(H):
    cv = mkcurve(H, lo=1)
    ov = mkcurve(H, 'o', lo=1)
    H.raises('other-curve', ValueError, lambda: cv.c[0].subcurve(ov.c[0]))
    H.raises('plain-point', TypeError, lambda: cv.c[0].subcurve(H.sk.Point(cv.c.data[0])))


@contract('C16', functions=('Curve.values',))
def coordinate_accessors(H):
    cv = mkcurve(H, param=False, dtypes=('float64', 'int64'))
    k = H.int('axis', 0, cv.n - 1)
    v = cv.c.values(k)
    H.check('size', H.shape_is(v, cv.m))
    for i in H.each(cv.m):
        H.check('column', H.exact(H.at(v, i), cv.P(i, k)))
    bad = H.int('bad', cv.n, cv.n + 5)
    H.raises('outside', ValueError, lambda: cv.c.values(bad))
    H.raises('not-an-integer', ValueError, lambda: cv.c.values(H.choice('what', (1.5, 'x', (0,)))))
    unchanged(H, 'source', cv)


@contract('C16', functions=('Curve.values',))
def all_coordinates(H):
    cv = mkcurve(H, param=False, ndim=H.choice('n', (2, 3, 4)))
    cols = list(cv.c.values())
    H.check('count', len(cols) == cv.n)
    for j in range(cv.n):
        H.check('size', H.shape_is(cols[j], cv.m))
        for i in H.each(cv.m):
            H.check('column', H.exact(H.at(cols[j], i), cv.P(i, j)))
    AX = H.sk.Axis
    for a, j in ((AX.X, 0), (AX.Y, 1)):
        for i in H.each(cv.m):
            H.check('named-axis', H.exact(H.at(cv.c.values(a), i), cv.P(i, j)))


@contract('C16', functions=('Curve.__iter__', 'Curve.__getitem__'))
def iteration_step(H):
    """Iterating a curve gives its points in order."""
    cv = mkcurve(H)

    def item(i, p):
        H.check('point', type(p) is H.sk.CurvePoint)
        H.check('index', p.idx == i)
        for j in range(cv.n):
            H.check('coordinate', H.exact(H.at(p.data, j), cv.P(i, j)))
        H.check('t', H.exact(p.t, cv.T(i) if cv.param else H.at(cv.c.cumarclen, i)))
    H.iteration(cv.c, cv.m, item)


@contract('C16', deductive=False, functions=('Curve.__iter__', 'Curve.__getitem__'), bound='curves of 0..40 points')
def iteration(H):
    cv = mkcurve(H)
    pts = list(cv.c)
    H.check('count', len(pts) == cv.m)
    for i in H.each(cv.m):
        H.check('index', pts[i].idx == i)
        for j in range(cv.n):
            H.check('coordinate', H.exact(H.at(pts[i].data, j), cv.P(i, j)))
        H.check('t', H.exact(pts[i].t, cv.T(i) if cv.param else H.at(cv.c.cumarclen, i)))
    back = list(reversed(cv.c))
    H.check('reversed', [p.idx for p in back] == list(range(cv.m))[::-1])
    for i in H.each(cv.m):
        p = cv.c[H.np.int64(i - cv.m)]
        H.check('numpy-index', p.idx == i and H.same_array(p.data, pts[i].data))


@contract('C16', functions=('CurvePoint.__copy__', 'CurvePoint.__deepcopy__'))
def point_copies(H):
    import copy
    cv = mkcurve(H, lo=1)
    i = H.int('i', -cv.m, cv.m - 1)
    p = cv.c[i]
    for q in (copy.copy(p), copy.deepcopy(p)):
        H.check('copy', type(q) is type(p) and q.idx == p.idx and q.curve is cv.c and q == p)
        H.check('t', H.exact(q.t, p.t))


@contract('C16', functions=('Curve.is2d', 'Curve.is3d', 'Curve.isspatial', 'Curve.__len__', 'Curve.__bool__'))
def size_and_dimension(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    H.check('len', H.And(H.len(cv.c) == cv.m, cv.c.size == cv.m))
    H.check('bool', H.Iff(bool(cv.c), cv.m > 0))
    H.check('2d', H.Iff(cv.c.is2d, cv.n == 2))
    H.check('3d', H.Iff(cv.c.is3d, cv.n == 3))
    H.check('spatial', H.Iff(cv.c.isspatial, cv.n >= 3))
