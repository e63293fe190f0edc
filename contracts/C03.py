from pydv.contract import contract
from common import mkcurve, check_curve, unchanged, norm_index, any_slice, INTS, RANGE

DT = ('float64', 'int64')


def check_selected(H, tag, c, cv, K, pos, dtype=True):
    """c has the points of cv at positions pos(0..K-1), with their parameter values."""
    check_curve(H, tag, c, K, cv.n, lambda i, j: cv.P(pos(i), j), (lambda i: cv.T(pos(i))) if cv.param else None,
                cv.dtype if dtype else None)


@contract('C03', functions=('Curve.__getitem__',))
def select_slice(H):
    cv = mkcurve(H)
    sl, s, cnt, step = any_slice(H, cv.m)
    c = cv.c[sl]
    check_selected(H, 'slice', c, cv, cnt, lambda i: s + i * step)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.__getitem__', 'CurvePoint.__init__', 'CurvePoint.t'))
def select_integer(H):
    cv = mkcurve(H, lo=1, param=True)
    i = H.int('i', -cv.m, cv.m - 1)
    p = cv.c[i]
    k = norm_index(H, i, cv.m)
    H.check('is-curve-point', isinstance(p, H.sk.CurvePoint))
    H.check('dimension', p.ndim == cv.n)
    H.check('parameter', H.exact(p.t, cv.T(k)))
    for j in H.each(cv.n):
        H.check('coordinates', H.exact(H.at(p.data, j), cv.P(k, j)))


@contract('C03', functions=('Curve.__getitem__',))
def select_sequence(H):
    cv = mkcurve(H, lo=1, dtypes=DT)
    k = H.size('k', 1)
    I = H.array('I', k, 'int64', kind=('int', -cv.m, cv.m))
    form = H.choice('form', ('array', 'list', 'tuple'))
    c = cv.c[I if form == 'array' else I.tolist() if form == 'list' else tuple(I.tolist())]
    check_selected(H, 'sequence', c, cv, k, lambda q: norm_index(H, H.at(I, q), cv.m))
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.__getitem__', 'Curve.delete'), deductive=False,
          bound='index arrays of every integer type, curves of up to 12 points')
def index_types(H):
    """Indices are indices whatever the integer type of the array that carries them, and masks whatever carries them."""
    np = H.np
    cv = mkcurve(H, lo=1, dtypes=DT)
    d = H.choice('index_dtype', INTS + ('bool',))
    lo, hi = (0, 2) if d == 'bool' else (max(-cv.m, RANGE[d][0]), min(cv.m, RANGE[d][1]))
    if d != 'bool' and H.choice('binary', (False, False, True)):
        lo, hi = 0, min(2, cv.m)
    k = cv.m if d == 'bool' or H.choice('as_many_as_points', (False, True)) else H.size('k', 0)
    I = H.array('I', k, 'int64', kind=('int', lo, hi))
    form = H.choice('form', ('array', 'scalars'))
    x = I.astype(d) if form == 'array' else [np.dtype(d).type(v) for v in I.tolist()]
    sel = [q for q in range(k) if I[q]] if d == 'bool' else [int(v) % cv.m for v in I]
    if H.choice('delete', (False, True)):
        c, gone = cv.c.delete(x), set(sel)
        sel = [q for q in range(cv.m) if q not in gone]
    else:
        if form == 'scalars' and not k:
            return
        c = cv.c[x]
    check_selected(H, 'typed', c, cv, len(sel), lambda q: sel[q])
    if form == 'scalars' and k and d != 'bool':
        i = np.dtype(d).type(I[0])
        p = cv.c[i]
        H.check('scalar', H.And(*[H.exact(H.at(p.data, j), cv.P(int(i) % cv.m, j)) for j in range(cv.n)]))
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.__getitem__',))
def select_mask(H):
    cv = mkcurve(H, lo=1, dtypes=DT)
    M = H.array('mask', cv.m, 'bool')
    form = H.choice('form', ('array', 'list'))
    c = cv.c[M if form == 'array' else M.tolist()]
    K, pos = H.selection(cv.m, lambda i: H.at(M, i))
    check_selected(H, 'mask', c, cv, K, pos)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.reverse',))
def reverse(H):
    cv = mkcurve(H, dtypes=DT + ('float32',))
    c = cv.c.reverse()
    check_selected(H, 'reverse', c, cv, cv.m, lambda i: cv.m - 1 - i)
    check_selected(H, 'twice', c.reverse(), cv, cv.m, lambda i: i)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.delete',))
def delete_integer(H):
    cv = mkcurve(H, lo=1, dtypes=DT)
    i = H.int('i', -cv.m, cv.m - 1)
    k = norm_index(H, i, cv.m)
    c = cv.c.delete(i)
    check_selected(H, 'delete', c, cv, cv.m - 1, lambda q: H.If(q < k, q, q + 1))
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.delete',))
def delete_slice(H):
    cv = mkcurve(H, param=True)
    sl, s, cnt, step = any_slice(H, cv.m, steps=(None, -1, 2))
    lo = s if step > 0 else s + (cnt - 1) * step
    st = abs(step)
    if st == 1:
        K, pos = cv.m - cnt, lambda q: H.If(q < lo, q, q + cnt)
    else:
        K, pos = H.selection(cv.m, lambda i: H.Not(H.And(i >= lo, (i - lo) % st == 0, (i - lo) // st < cnt)))
    c = cv.c.delete(sl)
    check_selected(H, 'delete', c, cv, K, pos)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.delete',))
def delete_sequence(H):
    cv = mkcurve(H, lo=1)
    k = H.size('k', 0)
    I = H.array('I', k, 'int64', kind=('int', -cv.m, cv.m))
    form = H.choice('form', ('array', 'list'))
    c = cv.c.delete(I if form == 'array' else I.tolist())
    K, pos = H.selection(cv.m, lambda i: H.Not(H.exists(k, lambda q: H.Or(H.at(I, q) == i, H.at(I, q) + cv.m == i))))
    check_selected(H, 'delete', c, cv, K, pos)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.delete', 'Curve.drop'))
def delete_mask(H):
    cv = mkcurve(H)
    M = H.array('mask', cv.m, 'bool')
    how = H.choice('how', ('delete', 'drop', 'drop-invert'))
    neg = False
    if how == 'delete':
        c = cv.c.delete(M)
    elif how == 'drop':
        c = cv.c.drop(lambda data: M)
    else:
        c = cv.c.drop(lambda data: ~M)
        neg = True
    K, pos = H.selection(cv.m, lambda i: H.at(M, i) if neg else H.Not(H.at(M, i)))
    check_selected(H, 'delete', c, cv, K, pos)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.unique',))
def unique(H):
    cv = mkcurve(H, dtypes=DT)
    K, pos = H.selection(cv.m, lambda i: H.Not(H.exists(i, lambda k: H.forall(cv.n, lambda j: cv.P(i, j) == cv.P(k, j)))))
    c = cv.c.unique()
    check_selected(H, 'unique', c, cv, K, pos)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.nonsingular', '_diffgeom.nonsingular'))
def nonsingular_keeps_parameters(H):
    """Every kept point carries its own parameter value (which points are kept: C21)."""
    m = H.size('m', 0)
    n = H.size('n', 2, 4)
    A = H.array('A', (m, n))
    T = H.array('T', m, kind='inc')
    # the last coordinate repeats the parameter: each kept row identifies its parameter
    B = H.np.hstack([A, H.np.reshape(T, (m, 1))])
    c = H.sk.Curve(B, tdata=T).nonsingular()
    H.check('parametric', c.isparametric)
    H.check('same-length', H.And(H.shape_is(c.t, c.size), c.ndim == n + 1))
    for i in H.each(c.size):
        H.check('paired', H.exact(H.at(c.t, i), H.at(c.data, i, n)))


@contract('C03', functions=('Curve.coorientplane', '_diffgeom.coorientplane'))
def coorient(H):
    cv = mkcurve(H, lo=0, dtypes=DT)
    a1, a2 = H.choice('axes', ((0, 1), (1, 0)))
    c = cv.c.coorientplane(a1, a2)
    if H.decide(cv.m < 2):
        check_selected(H, 'short', c, cv, cv.m, lambda i: i)
        return
    x1, y1, x2, y2 = cv.P(0, a1), cv.P(0, a2), cv.P(cv.m - 1, a1), cv.P(cv.m - 1, a2)
    det = x1 * y2 - y1 * x2
    if H.symbolic:
        H.assume(det != 0)
    else:
        H.assume(abs(det) > 1e-6 * H.mag * H.mag)
    if H.decide(det > 0):
        check_selected(H, 'kept', c, cv, cv.m, lambda i: i)
    else:
        check_selected(H, 'reversed', c, cv, cv.m, lambda i: cv.m - 1 - i)
    unchanged(H, 'source', cv)


@contract('C03', functions=('Curve.__add__',))
def join(H):
    n = H.size('n', 2)
    a = mkcurve(H, 'a', ndim=n, dtypes=DT)
    b = mkcurve(H, 'b', ndim=n, dtypes=DT)
    c = a.c + b.c
    T = (lambda i: H.If(i < a.m, a.T(H.min(i, H.max(a.m - 1, 0))), b.T(H.max(i - a.m, 0)))) if a.param and b.param else None
    dt = 'int64' if a.dtype == b.dtype == 'int64' else 'float64'
    check_curve(H, 'join', c, a.m + b.m, n, None, None if T is None else (lambda i: _tj(H, a, b, i)), dt)
    for i, j in H.each(a.m + b.m, n):
        if H.decide(i < a.m):
            H.check('first', H.exact(H.at(c.data, i, j), a.P(i, j)))
        else:
            H.check('second', H.exact(H.at(c.data, i, j), b.P(i - a.m, j)))
    unchanged(H, 'a', a)
    unchanged(H, 'b', b)


def _tj(H, a, b, i):
    if H.decide(i < a.m):
        return a.T(i)
    return b.T(i - a.m)
