from pydv.contract import contract
from common import mkcurve, unchanged
from C14 import dot, vec, where


def sp(H, cv, T, i):
    return H.sqrt(dot(H, cv.n, T, T, i))


def ok(H, v, tiny=1e-4):
    """The speed is not (numerically) zero."""
    return v > (1e-8 if H.symbolic else tiny * H.mag)


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def plane_curvature(H):
    cv = mkcurve(H, lo=1, ndim=2, param=False, dtypes=('float64', 'int64'))
    T, S = vec(H, cv, 'firstderiv'), vec(H, cv, 'secondderiv')
    k = cv.c.curvature
    H.check('size', H.shape_is(k, cv.m))
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(ok(H, v)):
            x1, y1, x2, y2 = H.at(T, i, 0), H.at(T, i, 1), H.at(S, i, 0), H.at(S, i, 1)
            H.check('formula', H.close(H.at(k, i) * v * v * v, x1 * y2 - y1 * x2, scale=1e3 * H.mag ** 2 if not H.symbolic else None))


@contract('C15', functions=('CurvePointFunctionMixin.curvature', '_diffgeom._gradient'))
def spatial_curvature(H):
    cv = mkcurve(H, lo=1, nlo=3, param=False)
    T, E = vec(H, cv, 'firstderiv'), vec(H, cv, 'frenet1')
    k = cv.c.curvature
    H.check('size', H.shape_is(k, cv.m))
    D = H.sk.Curve(cv.c.frenet1).firstderiv
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(ok(H, v)):
            where(H, cv.m, i)
            H.check('formula', H.close(H.at(k, i) * v, H.sqrt(dot(H, cv.n, D, D, i)), scale=10))


@contract('C15', functions=('CurvePointFunctionMixin.torsion', '_diffgeom._gradient', '_numeric.dot1d'))
def torsion(H):
    cv = mkcurve(H, lo=1, nlo=2, param=False)
    T, E2, E3 = vec(H, cv, 'firstderiv'), vec(H, cv, 'frenet2'), vec(H, cv, 'frenet3')
    tau = cv.c.torsion
    H.check('size', H.shape_is(tau, cv.m))
    D = H.sk.Curve(cv.c.frenet2).firstderiv
    E3 = cv.c.frenet3
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(ok(H, v)):
            where(H, cv.m, i)
            H.check('formula', H.close(H.at(tau, i) * v, dot(H, cv.n, D, E3, i), scale=10))


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def straight_line_in_the_plane(H):
    """Points A + u_i B have curvature zero wherever the curve moves."""
    m = H.size('m', 2)
    A, B, u = H.array('a', 2), H.array('b', 2), H.array('u', m, kind='inc')
    c = H.sk.Curve(A + B * u[:, H.np.newaxis])
    if H.symbolic:                              # C14/linearity, C14/translation: the derivatives are multiples of B
        H.preset(c, 'firstderiv', B * H.local('g', m)[:, H.np.newaxis])
        H.preset(c, 'secondderiv', B * H.local('h', m)[:, H.np.newaxis])
    T = c.tangent
    for i in H.each(m):
        v = H.sqrt(H.sum(2, lambda j: H.at(T, i, j) * H.at(T, i, j)))
        if H.decide(ok(H, v, 1e-2)):
            H.check('zero', H.close(H.at(c.curvature, i), 0.0, scale=1e6 if not H.symbolic else None))


def line(H):
    """A straight line in space whose first derivative keeps its direction."""
    m = H.size('m', 2)
    n = H.size('n', 3)
    A, B, u = H.array('a', n), H.array('b', n), H.array('u', m, kind='inc')
    c = H.sk.Curve(A + B * u[:, H.np.newaxis])
    nb = H.sqrt(H.sum(n, lambda j: H.at(B, j) * H.at(B, j)))
    if H.symbolic:
        g = H.local('g', m)
        H.preset(c, 'firstderiv', B * g[:, H.np.newaxis])
        H.assume(H.forall(m, lambda i: H.at(g, i) > 0))
    else:
        H.assume(nb > 1e-3 * H.mag)
        T = c.tangent
        H.assume(H.forall(m, lambda i: H.sum(n, lambda j: H.at(T, i, j) * H.at(B, j)) > 1e-3 * H.mag * nb))
        g = None
    return c, m, n, B, nb, g


@contract('C15', functions=('CurvePointFunctionMixin.frenet1',))
def tangent_of_a_straight_line(H):
    c, m, n, B, nb, g = line(H)
    T = c.tangent
    for i in H.each(m):
        v = H.sqrt(H.sum(n, lambda j: H.at(T, i, j) * H.at(T, i, j)))
        if H.decide(ok(H, v)):
            if H.symbolic:
                H.have('speed', H.close(v, H.at(g, i) * nb))
            for j in H.each(n):
                H.check('direction', H.close(H.at(c.frenet1, i, j) * nb, H.at(B, j), scale=1e3 * H.mag if not H.symbolic else None))


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def straight_line_in_space(H):
    c, m, n, B, nb, g = line(H)
    if H.symbolic:                              # tangent_of_a_straight_line
        e = H.local('e', n)
        H.preset(c, 'frenet1', H.np.ones((m, 1)) * e)
    T = c.tangent
    k = c.curvature
    for i in H.each(m):
        v = H.sqrt(H.sum(n, lambda j: H.at(T, i, j) * H.at(T, i, j)))
        if H.decide(ok(H, v, 1e-2)):
            where(H, m, i)
            H.check('zero', H.close(H.at(k, i), 0.0, scale=1e6 if not H.symbolic else None))


def close_k(H, a, b, v):
    """Curvatures compared with the rounding of the data amplified by the speed."""
    if H.symbolic:
        return H.close(a, b)
    w = H.mag / max(v, 1e-12)
    return H.close(a, b, scale=(1 + abs(a)) * (1 + w) ** 3 * 1e2)


def moving(H, cv, T):
    """The curve moves at all of its points."""
    H.assume(H.forall(cv.m, lambda i: ok(H, sp(H, cv, T, i), 1e-2)))


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def translation(H):
    cv = mkcurve(H, lo=1, param=False, nhi=3)
    v = H.array('v', cv.n)
    d = H.sk.Curve(cv.data + v)
    if H.symbolic:                              # C14/translation
        for name in ('firstderiv', 'secondderiv'):
            H.preset(d, name, vec(H, cv, name))
    T = cv.c.tangent
    moving(H, cv, T)
    for i in H.each(cv.m):
        where(H, cv.m, i)
        H.check('curvature', close_k(H, H.at(d.curvature, i), H.at(cv.c.curvature, i), sp(H, cv, T, i)))


@contract('C15', functions=('CurvePointFunctionMixin.frenet1',))
def tangent_under_scaling(H):
    cv = mkcurve(H, lo=1, param=False, nhi=4)
    s = H.real('s', 0.25, 16)
    d = H.sk.Curve(cv.data * s)
    if H.symbolic:                              # C14/linearity
        H.preset(d, 'firstderiv', vec(H, cv, 'firstderiv') * s)
    T = cv.c.tangent
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(H.And(ok(H, v, 1e-2), ok(H, s * v, 1e-2))):
            for j in H.each(cv.n):
                H.check('frenet1', H.close(H.at(d.frenet1, i, j), H.at(cv.c.frenet1, i, j), scale=1e3))


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def scaling_in_the_plane(H):
    cv = mkcurve(H, lo=1, param=False, ndim=2)
    s = H.real('s', 0.25, 16)
    d = H.sk.Curve(cv.data * s)
    if H.symbolic:
        for name in ('firstderiv', 'secondderiv'):       # C14/linearity
            H.preset(d, name, vec(H, cv, name) * s)
    T = cv.c.tangent
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(H.And(ok(H, v, 1e-2), ok(H, s * v, 1e-2))):
            w = sp(H, cv, d.tangent, i)
            H.have('speed', H.close(w, s * v))
            k, l = H.at(cv.c.curvature, i), H.at(d.curvature, i)
            if H.symbolic:
                H.have('at-unit-scale', k * v * v * v == H.at(T, i, 0) * H.at(cv.c.secondderiv, i, 1) - H.at(T, i, 1) * H.at(cv.c.secondderiv, i, 0))
                H.have('at-scale', l * s * s * s * v * v * v == s * s * (k * v * v * v))
            H.check('curvature', close_k(H, s * l, k, v))


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def scaling_in_space(H):
    cv = mkcurve(H, lo=1, param=False, nlo=3, nhi=4)
    s = H.real('s', 0.25, 16)
    d = H.sk.Curve(cv.data * s)
    if H.symbolic:
        H.preset(d, 'firstderiv', vec(H, cv, 'firstderiv') * s)   # C14/linearity
        H.preset(d, 'frenet1', vec(H, cv, 'frenet1'))             # tangent_under_scaling
    T = cv.c.tangent
    if not H.symbolic:
        moving(H, cv, T)
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(H.And(ok(H, v, 1e-2), ok(H, s * v, 1e-2))):
            H.have('speed', H.close(sp(H, cv, d.tangent, i), s * v))
            where(H, cv.m, i)
            H.check('curvature', close_k(H, s * H.at(d.curvature, i), H.at(cv.c.curvature, i), v))


@contract('C15', functions=('CurvePointFunctionMixin.curvature', 'Curve.reverse'))
def reversal_in_the_plane(H):
    cv = mkcurve(H, lo=1, param=False, ndim=2)
    r = cv.c.reverse()
    if H.symbolic:                                        # C14/reversal
        H.preset(r, 'firstderiv', -1.0 * H.np.flip(vec(H, cv, 'firstderiv'), axis=0))
        H.preset(r, 'secondderiv', H.np.flip(vec(H, cv, 'secondderiv'), axis=0))
    T = cv.c.tangent
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(ok(H, v, 1e-2)):
            H.check('sign', close_k(H, H.at(r.curvature, cv.m - 1 - i), -1.0 * H.at(cv.c.curvature, i), v))


@contract('C15', functions=('CurvePointFunctionMixin.curvature',))
def reflection_in_the_plane(H):
    cv = mkcurve(H, lo=1, param=False, ndim=2)
    ax = H.choice('axis', (0, 1))
    f = H.np.array([-1.0, 1.0] if ax == 0 else [1.0, -1.0])
    d = H.sk.Curve(cv.data * f)
    if H.symbolic:                                        # C14/linearity
        for name in ('firstderiv', 'secondderiv'):
            H.preset(d, name, vec(H, cv, name) * f)
    T = cv.c.tangent
    for i in H.each(cv.m):
        v = sp(H, cv, T, i)
        if H.decide(ok(H, v, 1e-2)):
            H.check('sign', close_k(H, H.at(d.curvature, i), -1.0 * H.at(cv.c.curvature, i), v))


@contract('C15', functions=('CurvePointFunctionMixin.curvature', 'CurvePointFunctionMixin.torsion'))
def empty(H):
    n = H.size('n', 2, 4)
    c = H.sk.Curve(H.np.zeros((0, n)))
    H.check('curvature', H.sk.Curve(c).curvature.size == 0)
    H.check('torsion', H.sk.Curve(c).torsion.size == 0)


@contract('C15', functions=('CurvePointFunctionMixin.curvature', 'CurvePointFunctionMixin.frenet1', '_diffgeom._frenet_vector_norm'),
          deductive=False, bound='scales 2^-25 to 2^120, speeds above 2e-8')
def any_scale(H):
    """The curvature of a very small or very large curve is the curvature divided by the scale, its tangents are the same."""
    cv = mkcurve(H, lo=3, param=False)
    v = H.np.linalg.norm(cv.c.tangent, axis=1)
    H.assume(bool((v > 1e-2 * H.mag).all()))
    s = 2.0 ** H.choice('power', (-25, -22, -20, -17, -14, -10, 10, 30, 60))
    H.assume(bool((v * s > 2e-8).all()))
    d = H.sk.Curve(cv.data * s)
    H.check('unit-tangent', bool((H.np.abs(d.frenet1 - cv.c.frenet1) < 1e-7).all()))
    k = cv.c.curvature
    H.check('curvature', bool((H.np.abs(d.curvature * s - k) <= 1e-6 * (1 + H.np.abs(k))).all()))
