from pydv.contract import contract
from common import mkcurve, check_curve, unchanged, mkpoint, norm_index

DT = ('float64', 'int64')


def pick(H, cv, k, cnt, Q):
    """Row i of the result of inserting (evaluated lazily: only the needed row is read)."""
    def row(i, j):
        if H.decide(i < k):
            return cv.P(i, j)
        if H.decide(i < k + cnt):
            return Q(i - k, j)
        return cv.P(i - cnt, j)
    return row


@contract('C04', functions=('Curve.insert', 'Curve._check_ndim'))
def insert_point(H):
    cv = mkcurve(H, dtypes=DT, param=False)
    p, a = mkpoint(H, 'p', cv.n, cv.dtype)
    i = H.int('i', -cv.m, cv.m)
    k = norm_index(H, i, cv.m)
    c = cv.c.insert(i, p)
    check_curve(H, 'insert', c, cv.m + 1, cv.n, pick(H, cv, k, 1, lambda q, j: H.at(a, j)), None, cv.dtype)
    unchanged(H, 'source', cv)
    b = c.delete(k)
    check_curve(H, 'delete-restores', b, cv.m, cv.n, cv.P, None, cv.dtype)


@contract('C04', functions=('Curve.insert', 'Curve._check_ndim'))
def insert_curve(H):
    cv = mkcurve(H, dtypes=DT, param=False)
    ov = mkcurve(H, 'o', lo=0, dtypes=(cv.dtype,), param=False, ndim=cv.n)
    i = H.int('i', -cv.m, cv.m)
    k = norm_index(H, i, cv.m)
    c = cv.c.insert(i, ov.c)
    check_curve(H, 'insert', c, cv.m + ov.m, cv.n, pick(H, cv, k, ov.m, ov.P), None, cv.dtype)
    unchanged(H, 'source', cv)
    b = c.delete(slice(k, k + ov.m))
    check_curve(H, 'delete-restores', b, cv.m, cv.n, cv.P, None, cv.dtype)


@contract('C04', functions=('Curve.append', 'Curve.insert'))
def append(H):
    cv = mkcurve(H, dtypes=DT)
    if H.choice('what', ('curve', 'point')) == 'curve':
        ov = mkcurve(H, 'o', dtypes=(cv.dtype,), ndim=cv.n)
        c = cv.c.append(ov.c)
        check_curve(H, 'append', c, cv.m + ov.m, cv.n, pick(H, cv, cv.m, ov.m, ov.P), None, cv.dtype)
    else:
        p, a = mkpoint(H, 'p', cv.n, cv.dtype)
        c = cv.c.append(p)
        check_curve(H, 'append', c, cv.m + 1, cv.n, pick(H, cv, cv.m, 1, lambda q, j: H.at(a, j)), None, cv.dtype)
    unchanged(H, 'source', cv)


@contract('C04', functions=('Curve.__add__',))
def join(H):
    cv = mkcurve(H, dtypes=DT, param=False)
    ov = mkcurve(H, 'o', dtypes=(cv.dtype,), param=False, ndim=cv.n)
    c = cv.c + ov.c
    check_curve(H, 'join', c, cv.m + ov.m, cv.n, pick(H, cv, cv.m, ov.m, ov.P), None, cv.dtype)
    d = cv.c.append(ov.c)
    check_curve(H, 'append', d, cv.m + ov.m, cv.n, pick(H, cv, cv.m, ov.m, ov.P), None, cv.dtype)
    unchanged(H, 'source', cv)
    unchanged(H, 'other', ov)


@contract('C04', functions=('Curve.insert', 'Curve.append', 'Curve.__add__', 'Curve.delete', 'Curve._check_ndim'))
def rejected(H):
    cv = mkcurve(H, lo=1)
    n2 = H.size('n2', 2)
    H.assume(n2 != cv.n)
    p, a = mkpoint(H, 'p', n2)
    o = mkcurve(H, 'o', lo=0, ndim=n2, param=False)
    i = H.int('i', -cv.m, cv.m)
    H.raises('insert-point-of-other-dimension', ValueError, lambda: cv.c.insert(i, p))
    H.raises('insert-curve-of-other-dimension', ValueError, lambda: cv.c.insert(i, o.c))
    H.raises('append-of-other-dimension', ValueError, lambda: cv.c.append(p))
    H.raises('append-curve-of-other-dimension', ValueError, lambda: cv.c.append(o.c))
    H.raises('join-of-other-dimension', ValueError, lambda: cv.c + o.c)
    q, b = mkpoint(H, 'q', cv.n)
    far = H.int('far', cv.m + 1, cv.m + 9)
    neg = H.int('neg', -cv.m - 9, -cv.m - 1)
    H.raises('insert-above', IndexError, lambda: cv.c.insert(far, q))
    H.raises('insert-below', IndexError, lambda: cv.c.insert(neg, q))
    H.raises('delete-above', IndexError, lambda: cv.c.delete(far - 1))
    H.raises('delete-below', IndexError, lambda: cv.c.delete(neg))
    unchanged(H, 'source', cv)


@contract('C04', functions=('Curve.insertdim', 'Curve.deletedim'))
def insert_dimension(H):
    cv = mkcurve(H, lo=1, dtypes=DT, param=False)
    i = H.int('axis', -cv.n, cv.n)
    k = norm_index(H, i, cv.n)
    V = None
    form = H.choice('form', ('none', 'array', 'list'))
    if form != 'none':
        V = H.array('values', cv.m, cv.dtype)
        c = cv.c.insertdim(i, V if form == 'array' else V.tolist())
    elif H.choice('kw', (False, True)):
        c = cv.c.insertdim(axis=i)
    else:
        c = cv.c.insertdim(i)

    def col(r, j):
        if H.decide(j < k):
            return cv.P(r, j)
        if H.decide(j == k):
            return 0 if V is None else H.at(V, r)
        return cv.P(r, j - 1)
    check_curve(H, 'insertdim', c, cv.m, cv.n + 1, col, None, cv.dtype)
    unchanged(H, 'source', cv)
    b = c.deletedim(k if H.choice('neg', (False, True)) else k - cv.n - 1)
    check_curve(H, 'deletedim-restores', b, cv.m, cv.n, cv.P, None, cv.dtype)


@contract('C04', functions=('Curve.appenddim', 'Curve.insertdim'))
def append_dimension(H):
    cv = mkcurve(H, lo=1, dtypes=DT)
    V = None
    if H.choice('given', (True, False)):
        V = H.array('values', cv.m, cv.dtype)
        c = cv.c.appenddim(V)
    else:
        c = cv.c.appenddim()

    def col(r, j):
        if H.decide(j < cv.n):
            return cv.P(r, j)
        return 0 if V is None else H.at(V, r)
    check_curve(H, 'appenddim', c, cv.m, cv.n + 1, col, None, cv.dtype)
    unchanged(H, 'source', cv)


@contract('C04', functions=('Curve.deletedim',))
def delete_dimension(H):
    cv = mkcurve(H, lo=1, dtypes=DT, nlo=3)
    i = H.int('axis', -cv.n, cv.n - 1)
    k = norm_index(H, i, cv.n)
    c = cv.c.deletedim(i)

    def col(r, j):
        if H.decide(j < k):
            return cv.P(r, j)
        return cv.P(r, j + 1)
    check_curve(H, 'deletedim', c, cv.m, cv.n - 1, col, None, cv.dtype)
    unchanged(H, 'source', cv)


@contract('C04', functions=('Curve.insertdim', 'Curve.deletedim'))
def dimension_rejected(H):
    cv = mkcurve(H, lo=1, nlo=3)
    far = H.int('far', cv.n + 1, cv.n + 9)
    neg = H.int('neg', -cv.n - 9, -cv.n - 1)
    H.raises('insertdim-above', IndexError, lambda: cv.c.insertdim(far))
    H.raises('insertdim-below', IndexError, lambda: cv.c.insertdim(neg))
    H.raises('deletedim-above', IndexError, lambda: cv.c.deletedim(far - 1))
    H.raises('deletedim-below', IndexError, lambda: cv.c.deletedim(neg))
    p = mkcurve(H, 'plane', lo=1, ndim=2)
    H.raises('deletedim-plane', ValueError, lambda: p.c.deletedim(H.int('a', -2, 1)))
