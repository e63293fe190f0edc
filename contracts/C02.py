from pydv.contract import contract
from common import mkcurve, check_curve, mkpoint, unchanged

NUM = ('float64', 'int64', 'float32', 'int32')


@contract('C02', functions=('Curve.__init__', '_utils.as2d', 'Curve.data', 'Curve.t', 'Curve.size', 'Curve.ndim', 'Curve.dtype'))
def curve_from_array(H):
    dtype = H.choice('dtype', NUM)
    req = H.choice('requested', (None,) + NUM)
    axis = H.choice('axis', (None, 0, 1, -1, -2))
    m, n = H.size('m', 0), H.size('n', 2)
    by_col = axis in (1, -1)
    A = H.array('A', (n, m) if by_col else (m, n), dtype)
    T = H.array('T', m) if H.choice('param', (False, True)) else None
    H.assume(H.Or(m > 0, axis in (None, 0)))
    c = H.sk.Curve(A, tdata=T, axis=axis, dtype=req)
    check_curve(H, 'curve', c, m, n, None, (lambda i: H.at(T, i)) if T is not None else None, req or dtype)
    if req is None or req == dtype or (dtype == 'int32' and req != 'float32') or (dtype == 'float32' and req == 'float64'):
        for i, j in H.each(m, n):
            H.check('coordinates', H.exact(H.at(c.data, i, j), H.at(A, j, i) if by_col else H.at(A, i, j)))
    H.isolated('isolated', c.data, A)
    if T is not None:
        H.isolated('parameter-isolated', c.t, T)


@contract('C02', functions=('Curve.__init__', '_utils.as2d'))
def curve_from_vectors(H):
    dtype = H.choice('dtype', ('float64', 'int64'))
    req = H.choice('requested', (None, 'float64', 'int64', 'float32'))
    m = H.size('m', 1)
    k = H.choice('ndim', (2, 3, 4))
    xs = [H.array('x%d' % q, m, dtype) for q in range(k)]
    form = H.choice('form', ('list', 'tuple', 'lists'))
    if form == 'lists':
        src = [x.tolist() for x in xs]
    else:
        src = xs if form == 'list' else tuple(xs)
    T = H.array('T', m) if H.choice('param', (False, True)) else None
    c = H.sk.Curve(src, tdata=T, dtype=req)
    check_curve(H, 'curve', c, m, k, None, (lambda i: H.at(T, i)) if T is not None else None, req or 'float64')
    if not (dtype == 'float64' and req in ('int64', 'float32')) and req != 'float32':
        for i in H.each(m):
            for j in range(k):
                H.check('coordinates', H.exact(H.at(c.data, i, j), H.at(xs[j], i)))
    for x in xs:
        H.isolated('isolated', c.data, x)


@contract('C02', functions=('Curve.__init__',))
def curve_from_points(H):
    n = H.size('n', 2)
    k = H.choice('m', (1, 2, 3))
    arrs = [H.array('p%d' % q, n) for q in range(k)]
    pts = [H.sk.Point(a) for a in arrs]
    T = H.array('T', k) if H.choice('param', (False, True)) else None
    c = H.sk.Curve(pts, axis=0, tdata=T)
    check_curve(H, 'curve', c, k, n, lambda i, j: _pick(H, arrs, i, j), (lambda i: H.at(T, i)) if T is not None else None, 'float64')
    for j in H.each(n):
        for i in range(k):
            H.check('coordinates', H.exact(H.at(c.data, i, j), H.at(arrs[i], j)))


def _pick(H, arrs, i, j):
    r = H.at(arrs[0], j)
    for q in range(1, len(arrs)):
        r = H.If(i == q, H.at(arrs[q], j), r)
    return r


@contract('C02', functions=('Curve.__init__',))
def ndmin_appends_zeros(H):
    cv = mkcurve(H, dtypes=('float64', 'int64', 'float32'))
    nd = H.int('ndmin', 2, cv.n + 3)
    src = cv.c if H.choice('source', ('curve', 'array')) == 'curve' else cv.data
    is_curve = src is cv.c
    c = H.sk.Curve(src, ndmin=nd)
    n2 = H.max(nd, cv.n)
    check_curve(H, 'curve', c, cv.m, n2, None, cv.T if (cv.param and is_curve) else None, cv.dtype)
    for i, j in H.each(cv.m, n2):
        if H.decide(j < cv.n):
            H.check('kept', H.exact(H.at(c.data, i, j), cv.P(i, j)))
        else:
            H.check('zeros', H.exact(H.at(c.data, i, j), 0))


@contract('C02', functions=('Curve.__init__', 'Curve.__copy__', 'Curve.__deepcopy__'))
def copies_are_equal(H):
    import copy
    cv = mkcurve(H, dtypes=('float64', 'int64', 'float32', 'int32'))
    how = H.choice('how', ('ctor', 'copy', 'deepcopy', 'slice'))
    if how == 'ctor':
        c = H.sk.Curve(cv.c)
    elif how == 'copy':
        c = copy.copy(cv.c)
    elif how == 'deepcopy':
        c = copy.deepcopy(cv.c)
    else:
        c = cv.c[:]
    check_curve(H, 'copy', c, cv.m, cv.n, cv.P, cv.T if cv.param else None, cv.dtype)
    H.check('equal', c == cv.c)
    H.check('equal-back', cv.c == c)
    unchanged(H, 'source', cv)


@contract('C02', functions=('Curve.__init__',))
def curve_with_requested_dtype(H):
    cv = mkcurve(H, dtypes=('float64', 'int64', 'float32', 'int32'))
    req = H.choice('requested', ('float64', 'int64', 'float32', 'complex128'))
    c = H.sk.Curve(cv.c, dtype=req)
    check_curve(H, 'curve', c, cv.m, cv.n, None, cv.T if cv.param else None, req)
    if req == 'float64' or (req == 'int64' and cv.dtype in ('int64', 'int32')):
        for i, j in H.each(cv.m, cv.n):
            H.check('coordinates', H.exact(H.at(c.data, i, j), cv.P(i, j)))


@contract('C02', functions=('Curve.__init__',))
def rejected_curves(H):
    sk = H.sk
    m, n = H.size('m', 1), H.size('n', 2)
    A = H.array('A', (m, n))
    case = H.choice('case', ('ndmin', 'dtype', 'axis', 'tsize', 'trank', 'one-dim', 'str-dtype', 'axis-seq'))
    if case == 'ndmin':
        k = H.int('k', -3, 1)
        H.raises('ndmin-below-two', ValueError, lambda: sk.Curve(A, ndmin=k))
    elif case == 'dtype':
        H.raises('bool-dtype', ValueError, lambda: sk.Curve(A, dtype=bool))
    elif case == 'str-dtype':
        H.raises('str-dtype', ValueError, lambda: sk.Curve(A, dtype='U5'))
        H.raises('object-dtype', ValueError, lambda: sk.Curve(A, dtype=object))
    elif case == 'axis':
        ax = H.int('ax', -6, 6)
        H.assume(H.Or(ax > 1, ax < -2))
        H.raises('axis-out-of-range', ValueError, lambda: sk.Curve(A, axis=ax))
    elif case == 'axis-seq':
        ax = H.choice('ax2', (2, 5, -3))
        H.raises('axis-out-of-range-vectors', ValueError, lambda: sk.Curve([A[0], A[0]], axis=ax))
    elif case == 'tsize':
        k = H.size('k', 0)
        H.assume(k != m)
        T = H.array('T', k)
        H.raises('parameter-size', ValueError, lambda: sk.Curve(A, tdata=T))
    elif case == 'trank':
        T2 = H.array('T2', (m, 1))
        H.raises('parameter-rank', ValueError, lambda: sk.Curve(A, tdata=T2))
    elif case == 'one-dim':
        x = H.array('x', m)
        H.raises('one-dimensional', ValueError, lambda: sk.Curve([x]))
        H.raises('one-dimensional-array', ValueError, lambda: sk.Curve(x))


@contract('C02', functions=('Point.__init__', 'Point.data', 'Point.ndim', 'Point.dtype', 'Point.__copy__', 'Point.__deepcopy__'))
def point_holds_coordinates(H):
    import copy
    sk = H.sk
    n = H.size('n', 1)
    dtype = H.choice('dtype', NUM)
    req = H.choice('requested', (None,) + NUM)
    A = H.array('A', n, dtype)
    p = sk.Point(A, dtype=req)
    H.check('dtype', H.is_dtype(p, req or 'float64'))
    H.check('dim', H.And(p.ndim == n, H.len(p) == n, H.shape_is(p.data, n)))
    H.readonly('readonly', p.data)
    H.isolated('isolated', p.data, A)
    if req in (None, 'float64') or req == dtype:
        for i in H.each(n):
            H.check('coordinates', H.exact(H.at(p.data, i), H.at(A, i)))
    if req in (None, 'float64'):
        how = H.choice('how', ('ctor', 'copy', 'deepcopy'))
        q = sk.Point(p) if how == 'ctor' else copy.copy(p) if how == 'copy' else copy.deepcopy(p)
        H.check('copy-dim', q.ndim == n)
        H.check('copy-equal', q == p)
        for i in H.each(n):
            H.check('copy-coordinates', H.exact(H.at(q.data, i), H.at(A, i)))


@contract('C02', functions=('Point.__init__',))
def rejected_points(H):
    sk = H.sk
    m, n = H.size('m', 1), H.size('n', 1)
    A = H.array('A', (m, n))
    H.raises('rank-2', ValueError, lambda: sk.Point(A))
    x = H.array('x', n)
    H.raises('bool-dtype', ValueError, lambda: sk.Point(x, dtype=bool))
    H.raises('str-dtype', ValueError, lambda: sk.Point(x, dtype='U3'))
    H.raises('object-dtype', ValueError, lambda: sk.Point(x, dtype=object))
