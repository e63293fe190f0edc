from pydv.contract import contract
from common import mkcurve, check_curve, unchanged, int_curves, int_dtype


def axes(H, n):
    """Two axes of the plane: the default ones or any two."""
    if H.choice('axes', ('default', 'any')) == 'default':
        return {}, 0, 1
    a, b = H.int('axis1', 0, n - 1), H.int('axis2', 0, n - 1)
    return dict(axis1=a, axis2=b), a, b


def det(H, P, m, a, b):
    return P(0, a) * P(m - 1, b) - P(0, b) * P(m - 1, a)


def tiny2(H, cv):
    """Determinants below this are within rounding of zero."""
    return 0 if H.symbolic else 1e-9 * float(H.np.abs(cv.data[[0, -1]]).max()) ** 2


@contract('C22', functions=('Curve.coorientplane', '_diffgeom.coorientplane', 'Curve.reverse'))
def orientation(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'), vary=('scale',))
    kw, a, b = axes(H, cv.n)
    r = cv.c.coorientplane(**kw)
    T = cv.T if cv.param else None
    if H.decide(cv.m < 2):
        check_curve(H, 'short', r, cv.m, cv.n, cv.P, T, cv.dtype)
        return
    d = det(H, cv.P, cv.m, a, b)
    tiny = tiny2(H, cv)
    if H.decide(d > tiny):
        check_curve(H, 'kept', r, cv.m, cv.n, cv.P, T, cv.dtype)
    elif H.decide(d < -tiny):
        check_curve(H, 'reversed', r, cv.m, cv.n, lambda i, j: cv.P(cv.m - 1 - i, j),
                    (lambda i: cv.T(cv.m - 1 - i)) if cv.param else None, cv.dtype)
    else:
        H.check('kept-or-reversed-size', H.And(r.size == cv.m, r.ndim == cv.n))
    unchanged(H, 'source', cv)


@contract('C22', functions=('Curve.coorientplane', '_diffgeom.coorientplane'))
def result_is_oriented(H):
    cv = mkcurve(H, lo=2, vary=('scale',))
    kw, a, b = axes(H, cv.n)
    tiny = tiny2(H, cv)
    d = det(H, cv.P, cv.m, a, b)
    H.assume(H.abs(d) > tiny)
    r = cv.c.coorientplane(**kw)
    H.check('positive', det(H, lambda i, j: H.at(r.data, i, j), cv.m, a, b) > 0)
    q = r.coorientplane(**kw)
    check_curve(H, 'twice', q, cv.m, cv.n, lambda i, j: H.at(r.data, i, j), (lambda i: H.at(r.t, i)) if cv.param else None, cv.dtype)


@contract('C22', functions=('Curve.coorientplane',), deductive=False, bound='curves of up to 40 points, every integer type')
def integer_coordinates(H):
    c, f, m, n = int_curves(H, 'c', int_dtype(H))
    x, y = c.coorientplane(), f.coorientplane()
    H.check('same', x.size == m and all((x.data[i] == y.data[i]).all() for i in range(m)))
