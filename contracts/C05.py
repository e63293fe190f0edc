from pydv.contract import contract
from common import mkcurve, unchanged, mkpoint, isclose, clip_slice


def near_point(H, cv, name='p', dtype='float64'):
    """A point of the curve's dimension; at run time often (nearly) one of the curve's points."""
    a = H.array(name, cv.n, dtype, near=cv.data)
    return H.sk.Point(a, dtype=dtype), a


def same(H, cv, a, ints):
    return lambda i: H.forall(cv.n, lambda j: isclose(H, H.at(a, j), cv.P(i, j), ints))


@contract('C05', functions=('Curve.__contains__', '_numeric.allequal', '_numeric.isequal'))
def contains_point(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    pd = H.choice('pdtype', ('float64', 'int64'))
    p, a = near_point(H, cv, dtype=pd)
    eq = same(H, cv, a, cv.dtype == pd == 'int64')
    r = p in cv.c
    H.check('contains', H.Iff(r, H.exists(cv.m, eq)))
    unchanged(H, 'source', cv)


@contract('C05', functions=('Curve.__contains__', 'Point.__eq__'))
def contains_agrees_with_point_equality(H):
    cv = mkcurve(H)
    p, a = near_point(H, cv)
    r = p in cv.c
    for i in H.each(cv.m):
        H.check('equal-point-is-contained', H.Implies(p == H.sk.Point(cv.c.data[i]), r))
    eq = same(H, cv, a, False)
    for i in H.each(cv.m):
        H.check('point-equality', H.Iff(p == H.sk.Point(cv.c.data[i]), eq(i)))


@contract('C05', functions=('Curve.count',))
def count(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    pd = H.choice('pdtype', ('float64', 'int64'))
    p, a = near_point(H, cv, dtype=pd)
    eq = same(H, cv, a, cv.dtype == pd == 'int64')
    k = cv.c.count(p)
    H.check('count', H.exact(k, H.count(cv.m, eq)))
    unchanged(H, 'source', cv)


@contract('C05', functions=('Curve.index',))
def index(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'), param=False)
    pd = cv.dtype
    p, a = near_point(H, cv, dtype=pd)
    eq = same(H, cv, a, cv.dtype == pd == 'int64')
    how = H.choice('args', ('none', 'start', 'end', 'both'))
    s = H.int('start', -cv.m - 2, cv.m + 2) if how in ('start', 'both') else None
    e = H.int('end', -cv.m - 2, cv.m + 2) if how in ('end', 'both') else None

    def call():
        if how == 'none':
            return cv.c.index(p)
        if how == 'start':
            return cv.c.index(p, s)
        if how == 'end':
            return cv.c.index(p, end=e)
        return cv.c.index(p, s, e)
    k, err = H.outcome(call, ValueError)
    lo, hi = clip_slice(H, cv.m, s, e)
    n = hi - lo if H.decide(hi > lo) else 0
    if err:
        H.check('absent', H.forall(n, lambda i: H.Not(eq(lo + i))))
    else:
        H.check('in-interval', H.And(k >= lo, k < hi))
        H.check('equal', eq(k))
        H.check('smallest', H.forall(k - lo, lambda i: H.Not(eq(lo + i))))
    unchanged(H, 'source', cv)


@contract('C05', functions=('Curve.__contains__',))
def contains_curve(H):
    cv = mkcurve(H)
    ov = mkcurve(H, 'o', ndim=cv.n, near=cv.data)
    r = ov.c in cv.c

    def run(i):
        return H.forall(ov.m, lambda k: H.forall(cv.n, lambda j: isclose(H, cv.P(i + k, j), ov.P(k, j))))
    if H.decide(r):
        H.check('contained-is-a-run', H.exists(H.max(cv.m - ov.m + 1, 0), run))
    else:
        for i in H.each(cv.m - ov.m + 1):
            H.check('run-is-contained', H.Not(run(i)))
    unchanged(H, 'source', cv)


@contract('C05', functions=('Curve.__contains__', 'Curve.index', 'Curve.count', 'Curve._check_ndim', 'Curve.__eq__'))
def other_dimension(H):
    cv = mkcurve(H)
    n2 = H.size('n2', 2)
    H.assume(n2 != cv.n)
    p, a = mkpoint(H, 'p', n2)
    ov = mkcurve(H, 'o', ndim=n2, param=False)
    H.check('point', H.Not(p in cv.c))
    H.check('curve', H.Not(ov.c in cv.c))
    H.check('equal', H.Not(ov.c == cv.c))
    H.check('other-object', H.Not('a' in cv.c))
    H.raises('index', ValueError, lambda: cv.c.index(p))
    H.raises('count', ValueError, lambda: cv.c.count(p))


@contract('C05', functions=('Curve.__eq__',))
def curve_equality(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    ov = mkcurve(H, 'o', ndim=cv.n, near=cv.data, dtypes=('float64', 'int64'))
    r = cv.c == ov.c
    ints = cv.dtype == 'int64' == ov.dtype
    H.check('equality', H.Iff(r, H.And(cv.m == ov.m, H.forall(H.min(cv.m, ov.m), lambda i: H.forall(
        cv.n, lambda j: isclose(H, cv.P(i, j), ov.P(i, j), ints))))))
    H.check('reflexive', cv.c == cv.c)
