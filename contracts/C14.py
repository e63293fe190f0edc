from pydv.contract import contract
from common import mkcurve, unchanged, int_curves, int_dtype, power

DERIV = ('firstderiv', 'secondderiv', 'thirdderiv')
F = ('_diffgeom._gradient', 'CurvePointFunctionMixin.firstderiv', 'CurvePointFunctionMixin.secondderiv',
     'CurvePointFunctionMixin.thirdderiv')


def where(H, m, i):
    """Splits on the position of i (ends, inside)."""
    H.decide(i == 0)
    H.decide(i == m - 1)
    H.decide(i == 1)
    H.decide(i == m - 2)
    H.decide(m <= 3)


def sc(H, m=1, k=1):
    return None if H.symbolic else (1 + k) * H.mag


@contract('C14', functions=F)
def shapes(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    for d in DERIV:
        D = getattr(cv.c, d)
        H.check(d, H.shape_is(D, cv.m, cv.n))
        H.check(d + '-float', H.is_dtype(D, 'float64'))
    H.check('tangent', H.shape_is(cv.c.tangent, cv.m, cv.n))
    for i, j in H.each(cv.m, cv.n):
        H.check('tangent-is-first-derivative', H.exact(H.at(cv.c.tangent, i, j), H.at(cv.c.firstderiv, i, j)))
    unchanged(H, 'source', cv)


@contract('C14', functions=F)
def translation(H):
    cv = mkcurve(H, param=False)
    v = H.array('v', cv.n)
    d = H.sk.Curve(cv.data + v)
    name = H.choice('order', DERIV)
    A, B = getattr(cv.c, name), getattr(d, name)
    for i, j in H.each(cv.m, cv.n):
        where(H, cv.m, i)
        H.check(name, H.close(H.at(B, i, j), H.at(A, i, j), scale=sc(H, k=8)))


@contract('C14', functions=F)
def linearity(H):
    cv = mkcurve(H, param=False)
    Q = H.array('other', (cv.m, cv.n))
    a, b = H.real('a', -8, 8), H.real('b', -8, 8)
    q = H.sk.Curve(Q)
    d = H.sk.Curve(cv.data * a + Q * b)
    k = H.choice('order', (0, 1, 2))
    if k and H.symbolic:
        A0, B0 = H.local('A0', (cv.m, cv.n)), H.local('B0', (cv.m, cv.n))
        for o, v in ((cv.c, A0), (q, B0), (d, A0 * a + B0 * b)):
            H.preset(o, DERIV[k - 1], v)
    name = DERIV[k]
    A, B, D = getattr(cv.c, name), getattr(q, name), getattr(d, name)
    for i, j in H.each(cv.m, cv.n):
        where(H, cv.m, i)
        H.check(name, H.close(H.at(D, i, j), a * H.at(A, i, j) + b * H.at(B, i, j), scale=sc(H, k=200)))


@contract('C14', functions=F)
def exact_for_polynomials(H):
    """Coordinates a + b i + c i^2: the first derivative is b + 2 c i, the second 2 c, the third 0 (c = 0 for two points)."""
    quad = H.choice('degree', (1, 2)) == 2
    m = H.size('m', 3 if quad else 2)
    n = H.size('n', 2)
    A, B = H.array('a', n), H.array('b', n)
    C = H.array('c', n) if quad else None
    x = H.np.arange(m)[:, H.np.newaxis] * 1.0
    data = A + B * x + (C * x * x if quad else 0.0)
    c = H.sk.Curve(data)
    s = None if H.symbolic else (1 + m) ** 2 * H.mag
    for i, j in H.each(m, n):
        where(H, m, i)
        k = 2 * H.at(C, j) if quad else 0.0
        H.check('first', H.close(H.at(c.firstderiv, i, j), H.at(B, j) + k * i, scale=s))
        H.check('second', H.close(H.at(c.secondderiv, i, j), k, scale=s))
        H.check('third', H.close(H.at(c.thirdderiv, i, j), 0.0, scale=s))


@contract('C14', functions=F + ('Curve.reverse',))
def reversal(H):
    cv = mkcurve(H)
    r = cv.c.reverse()
    name = H.choice('order', DERIV)
    A, B = getattr(cv.c, name), getattr(r, name)
    s = 1 if name == 'secondderiv' else -1
    for i, j in H.each(cv.m, cv.n):
        where(H, cv.m, i)
        H.check(name, H.close(H.at(B, i, j), s * H.at(A, cv.m - 1 - i, j), scale=sc(H, k=8)))


@contract('C14', functions=('CurvePointFunctionMixin.speed', 'CurvePointFunctionMixin.tangent'))
def speed(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    v = cv.c.speed
    H.check('size', H.shape_is(v, cv.m))
    for i in H.each(cv.m):
        H.check('norm', H.close(H.at(v, i), H.sqrt(dot(H, cv.n, cv.c.tangent, cv.c.tangent, i))))


def dot(H, n, A, B, i):
    return H.sum(n, lambda j: H.at(A, i, j) * H.at(B, i, j))


def small(H, n, V, i):
    """The norm of row i is (numerically) zero."""
    return H.sqrt(dot(H, n, V, V, i)) <= 1e-8


def vec(H, cv, name):
    """The curve's property: verified by its own contract, an arbitrary array of that shape for its users."""
    return H.preset(cv.c, name, H.local(name, (cv.m, cv.n)))


@contract('C14', functions=('CurvePointFunctionMixin.frenet1', '_diffgeom._frenet_vector_norm'))
def unit_tangent(H):
    cv = mkcurve(H, lo=1, param=False, dtypes=('float64', 'int64'))
    vec(H, cv, 'firstderiv')
    T, e1 = cv.c.tangent, cv.c.frenet1
    normalised(H, cv, T, e1)


def normalised(H, cv, T, e1):
    H.check('shape', H.shape_is(e1, cv.m, cv.n))
    for i in H.each(cv.m):
        s = H.sqrt(dot(H, cv.n, T, T, i))
        if H.decide(s <= 1e-8):
            for j in H.each(cv.n):
                H.check('singular', H.close(H.at(e1, i, j), H.at(T, i, j)))
            continue
        for j in H.each(cv.n):
            H.check('direction', H.close(H.at(e1, i, j) * s, H.at(T, i, j)))
        H.check('unit', H.close(dot(H, cv.n, e1, e1, i), 1.0, scale=1))


@contract('C14', functions=('CurvePointFunctionMixin.normal', '_numeric.dot1d'))
def normal(H):
    cv = mkcurve(H, lo=1, param=False, dtypes=('float64', 'int64'))
    S, e1 = vec(H, cv, 'secondderiv'), vec(H, cv, 'frenet1')
    N = cv.c.normal
    H.check('shape', H.shape_is(N, cv.m, cv.n))
    for i in H.each(cv.m):
        p = dot(H, cv.n, S, e1, i)
        for j in H.each(cv.n):
            H.check('second-derivative-less-tangential-part', H.close(H.at(N, i, j), H.at(S, i, j) - p * H.at(e1, i, j)))


@contract('C14', functions=('CurvePointFunctionMixin.frenet2', '_diffgeom._frenet_vector_norm'))
def unit_normal(H):
    cv = mkcurve(H, lo=1, param=False, dtypes=('float64', 'int64'))
    N = vec(H, cv, 'normal')
    normalised(H, cv, N, cv.c.frenet2)


@contract('C14', functions=('CurvePointFunctionMixin.binormal', '_numeric.dot1d'))
def binormal(H):
    cv = mkcurve(H, lo=1, param=False, dtypes=('float64', 'int64'))
    D, e1, e2 = vec(H, cv, 'thirdderiv'), vec(H, cv, 'frenet1'), vec(H, cv, 'frenet2')
    B = cv.c.binormal
    H.check('shape', H.shape_is(B, cv.m, cv.n))
    for i in H.each(cv.m):
        p, q = dot(H, cv.n, D, e1, i), dot(H, cv.n, D, e2, i)
        for j in H.each(cv.n):
            H.check('third-derivative-less-plane-part',
                    H.close(H.at(B, i, j), H.at(D, i, j) - p * H.at(e1, i, j) - q * H.at(e2, i, j)))


@contract('C14', functions=('CurvePointFunctionMixin.frenet3', '_diffgeom._frenet_vector_norm'))
def unit_binormal(H):
    cv = mkcurve(H, lo=1, param=False, dtypes=('float64', 'int64'))
    B = vec(H, cv, 'binormal')
    normalised(H, cv, B, cv.c.frenet3)


@contract('C14', functions=('CurvePointFunctionMixin.normal', 'CurvePointFunctionMixin.frenet2'))
def frenet2_is_orthogonal(H):
    cv = mkcurve(H, lo=1, param=False)
    c, n = cv.c, cv.n
    T, e1, S = vec(H, cv, 'firstderiv'), vec(H, cv, 'frenet1'), vec(H, cv, 'secondderiv')
    N, e2 = c.normal, c.frenet2
    w = 1e3 * H.mag if not H.symbolic else None
    for i in H.each(cv.m):
        if H.decide(small(H, n, T, i)):
            continue
        if not H.symbolic and norm2(H, n, N, i) <= 1e-6 * H.mag:
            continue
        H.relies('unit_tangent', H.close(dot(H, n, e1, e1, i), 1.0, scale=1))
        H.check('normal-orthogonal-to-tangent', H.close(dot(H, n, N, e1, i), 0.0, scale=w))
        H.check('frenet2-orthogonal-to-frenet1', H.close(dot(H, n, e2, e1, i), 0.0, scale=1e3))


@contract('C14', functions=('CurvePointFunctionMixin.binormal', 'CurvePointFunctionMixin.frenet3'))
def frenet3_is_orthogonal(H):
    cv = mkcurve(H, lo=1, param=False)
    c, n = cv.c, cv.n
    T, N, D = vec(H, cv, 'firstderiv'), vec(H, cv, 'normal'), vec(H, cv, 'thirdderiv')
    e1, e2 = vec(H, cv, 'frenet1'), vec(H, cv, 'frenet2')
    B, e3 = c.binormal, c.frenet3
    w = 1e3 * H.mag if not H.symbolic else None
    for i in H.each(cv.m):
        if H.decide(small(H, n, T, i)) or H.decide(small(H, n, N, i)):
            continue
        if not H.symbolic and (norm2(H, n, N, i) <= 1e-4 * H.mag or norm2(H, n, B, i) <= 1e-4 * H.mag):
            continue
        H.relies('unit_tangent', H.close(dot(H, n, e1, e1, i), 1.0, scale=1))
        H.relies('unit_normal', H.close(dot(H, n, e2, e2, i), 1.0, scale=1))
        H.relies('frenet2_is_orthogonal', H.close(dot(H, n, e1, e2, i), 0.0, scale=1e3))
        H.check('binormal-orthogonal-to-tangent', H.close(dot(H, n, B, e1, i), 0.0, scale=w))
        H.check('binormal-orthogonal-to-normal', H.close(dot(H, n, B, e2, i), 0.0, scale=w))
        H.check('frenet3-orthogonal-to-frenet1', H.close(dot(H, n, e3, e1, i), 0.0, scale=1e4))
        H.check('frenet3-orthogonal-to-frenet2', H.close(dot(H, n, e3, e2, i), 0.0, scale=1e4))


def norm2(H, n, V, i):
    return H.sqrt(dot(H, n, V, V, i))


@contract('C14', functions=('Curve.firstderiv', 'Curve.secondderiv', 'Curve.thirdderiv', 'Curve.tangent', 'Curve.speed'))
def integer_coordinates(H):
    """The derivatives of a curve of integers are those of the same numbers as floating point ones."""
    c, f, m, n = int_curves(H, 'c', int_dtype(H))
    for name in ('firstderiv', 'secondderiv', 'thirdderiv', 'tangent'):
        x, y = getattr(c, name), getattr(f, name)
        H.check('shape', H.shape_is(x, m, n))
        for i, j in H.each(m, n):
            H.check(name, H.close(H.at(x, i, j), H.at(y, i, j)))
    for i in H.each(m):
        H.check('speed', H.close(H.at(c.speed, i), H.at(f.speed, i)))


@contract('C14', functions=F + ('CurvePointFunctionMixin.speed',), deductive=False, bound='scales 2^-120 to 2^120')
def any_scale(H):
    """Derivatives and speed of a very small or very large curve are the scaled ones."""
    cv, s = mkcurve(H, lo=1, param=False), power(H)
    d = H.sk.Curve(cv.data * s)
    for name in DERIV + ('speed',):
        a, b = getattr(cv.c, name), getattr(d, name) / s
        H.check(name, a.shape == b.shape and bool((H.np.abs(a - b) <= 1e-9 * (1 + H.mag)).all()))
