from pydv.contract import contract
from common import mkcurve, check_curve, unchanged


@contract('C21', functions=('Curve.unique',))
def unique(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'), vary=('dups', 'scale'))
    r = cv.c.unique()

    def eq(i, k):
        return H.forall(cv.n, lambda j: cv.P(i, j) == cv.P(k, j))
    K, f = H.selection(cv.m, lambda i: H.Not(H.exists(i, lambda k: eq(i, k))))
    check_curve(H, 'first-occurrences', r, K, cv.n, lambda i, j: cv.P(f(i), j), (lambda i: cv.T(f(i))) if cv.param else None, cv.dtype)
    unchanged(H, 'source', cv)


@contract('C21', functions=('Curve.drop',))
def drop_mask(H):
    cv = mkcurve(H)
    kind = H.choice('mask', ('point', 'coordinate'))
    if kind == 'point':
        mask = H.array('mask', cv.m, 'bool')
        r = cv.c.drop(lambda data: mask)
        gone = lambda i: H.at(mask, i)
    else:
        mask = H.array('mask', (cv.m, cv.n), 'bool')
        r = cv.c.drop(lambda data: mask)
        gone = lambda i: H.exists(cv.n, lambda j: H.at(mask, i, j))
    K, f = H.selection(cv.m, lambda i: H.Not(gone(i)))
    check_curve(H, 'kept', r, K, cv.n, lambda i, j: cv.P(f(i), j), (lambda i: cv.T(f(i))) if cv.param else None)
    unchanged(H, 'source', cv)


@contract('C21', functions=('Curve.drop', 'Curve.delete'))
def drop_indices(H):
    cv = mkcurve(H)
    k = H.size('k', 0)
    idx = H.array('indices', k, 'int64', kind=('int', -cv.m, cv.m))
    r = cv.c.drop(lambda data: idx)
    gone = lambda i: H.exists(k, lambda q: H.Or(H.at(idx, q) == i, H.at(idx, q) + cv.m == i))
    K, f = H.selection(cv.m, lambda i: H.Not(gone(i)))
    check_curve(H, 'kept', r, K, cv.n, lambda i, j: cv.P(f(i), j), (lambda i: cv.T(f(i))) if cv.param else None)
    unchanged(H, 'source', cv)


@contract('C21', functions=('Curve.drop',))
def drop_receives_the_data(H):
    cv = mkcurve(H)
    seen = []

    def isa(data):
        seen.append(data)
        return data[:, 0] > 0.0
    r = cv.c.drop(isa)
    H.check('called-once', len(seen) == 1)
    for i, j in H.each(cv.m, cv.n):
        H.check('data', H.exact(H.at(seen[0], i, j), cv.P(i, j)))
    K, f = H.selection(cv.m, lambda i: H.Not(cv.P(i, 0) > 0))
    check_curve(H, 'kept', r, K, cv.n, lambda i, j: cv.P(f(i), j), (lambda i: cv.T(f(i))) if cv.param else None)


@contract('C21', functions=('Curve.drop',))
def drop_rejects(H):
    cv = mkcurve(H)
    H.raises('not-callable', TypeError, lambda: cv.c.drop(H.choice('what', (None, 1, 'x'))))
    bad = H.array('bad', (cv.m, cv.n), 'float64')
    H.raises('number-matrix', ValueError, lambda: cv.c.drop(lambda data: bad))
    unchanged(H, 'source', cv)


@contract('C21', functions=('Curve.nonsingular', '_diffgeom.nonsingular'))
def nonsingular(H):
    """Finite points, without those that coincide with the finite point before them."""
    cv = mkcurve(H, special=True)
    r = cv.c.nonsingular()
    K1, f1 = H.selection(cv.m, lambda i: H.forall(cv.n, lambda j: H.finite(cv.P(i, j))))

    def d(k, j):
        return cv.P(f1(k), j) - cv.P(f1(k - 1), j)

    def keep(k):
        return H.Or(k == 0, H.abs(H.sqrt(H.sum(cv.n, lambda j: d(k, j) * d(k, j)))) > 1e-8)
    K2, f2 = H.selection(K1, keep)
    check_curve(H, 'kept', r, K2, cv.n, lambda i, j: cv.P(f1(f2(i)), j), (lambda i: cv.T(f1(f2(i)))) if cv.param else None)
    unchanged(H, 'source', cv)


@contract('C21', functions=('Curve.nonsingular', '_diffgeom.nonsingular'), deductive=False,
          bound='up to 8 points with coordinates from 1e-6 to 1e300')
def nonsingular_of_any_size(H):
    """Finite points are kept however large their coordinates are, and close ones that are not equal numerically as well."""
    np = H.np
    m, n = H.size('m', 1, 8), H.size('n', 2, 5)
    f = H.choice('size', (1e-6, 1e-3, 1.0, 1e10, 1e100, 1e152, 1e300))
    A = H.array('A', (m, n), kind=('int', -8, 9), dtype='int64').astype('float64') * f
    bad = [H.choice('bad', (False, False, False, True)) for _ in range(m)]
    for i in range(m):
        if bad[i]:
            A[i, H.int('j', 0, n - 1)] = H.choice('what', (np.nan, np.inf, -np.inf))
    want = []
    last = None
    for i in range(m):
        if not bad[i]:
            if last is None or (A[i] != A[last]).any():
                want.append(i)
            last = i
    with np.errstate(all='ignore'):
        c = H.sk.Curve(A, tdata=np.arange(float(m))).nonsingular()
    H.check('kept', c.t.tolist() == [float(i) for i in want])
