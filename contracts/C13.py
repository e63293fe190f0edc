from pydv.contract import contract
from common import mkcurve, unchanged, int_curves, int_dtype, power


def chord(H, P, n, i):
    return H.sqrt(H.sum(n, lambda j: (P(i + 1, j) - P(i, j)) * (P(i + 1, j) - P(i, j))))


def nch(H, m):
    return m - 1 if H.decide(m > 0) else 0


@contract('C13', functions=('_diffgeom.chordlen', '_diffgeom.arclen', 'CurvePointFunctionMixin.cumarclen', 'Curve.chordlen', 'Curve.arclen'))
def lengths(H):
    cv = mkcurve(H, dtypes=('float64', 'int64'))
    c = cv.c
    k = nch(H, cv.m)
    L = c.chordlen
    H.check('chord-count', H.shape_is(L, k))
    for i in H.each(k):
        H.check('chord', H.close(H.at(L, i), chord(H, cv.P, cv.n, i)))
    S = c.cumarclen
    H.check('cumulative-count', H.shape_is(S, cv.m))
    if H.decide(cv.m > 0):
        H.check('cumulative-starts-at-zero', H.exact(H.at(S, 0), 0))
    sc = (1 + cv.m) * H.sum(k, lambda i: H.at(L, i)) if not H.symbolic else None
    for i in H.each(k):
        H.check('cumulative-grows-by-chord', H.close(H.at(S, i + 1), H.at(S, i) + H.at(L, i), scale=sc))
        H.check('chord-nonnegative', H.at(L, i) >= 0)
    total = H.sum(k, lambda i: H.at(L, i))
    H.check('arc-length', H.close(c.arclen, total, scale=sc))
    if H.decide(cv.m > 0):
        H.check('cumulative-ends-at-arc-length', H.close(H.at(S, cv.m - 1), c.arclen, scale=sc))
    unchanged(H, 'source', cv)


@contract('C13', functions=('Curve.t', 'CurvePointFunctionMixin.cumarclen'))
def parameter(H):
    cv = mkcurve(H)
    t = cv.c.t
    H.check('size', H.shape_is(t, cv.m))
    if cv.param:
        for i in H.each(cv.m):
            H.check('given', H.exact(H.at(t, i), cv.T(i)))
    else:
        S = cv.c.cumarclen
        for i in H.each(cv.m):
            H.check('cumulative', H.exact(H.at(t, i), H.at(S, i)))


@contract('C13', functions=('_diffgeom.chordlen', '_diffgeom.arclen', 'CurvePointFunctionMixin.cumarclen'))
def translation(H):
    cv = mkcurve(H, param=False)
    v = H.array('v', cv.n)
    d = H.sk.Curve(cv.data + v)
    k = nch(H, cv.m)
    for i in H.each(k):
        H.check('chord', H.close(H.at(d.chordlen, i), H.at(cv.c.chordlen, i)))
    for i in H.each(cv.m):
        H.check('cumulative', H.close(H.at(d.cumarclen, i), H.at(cv.c.cumarclen, i), scale=1 + cv.m * H.mag if not H.symbolic else None))
    H.check('arc-length', H.close(d.arclen, cv.c.arclen, scale=1 + cv.m * H.mag if not H.symbolic else None))


@contract('C13', functions=('_diffgeom.chordlen', '_diffgeom.arclen', 'CurvePointFunctionMixin.cumarclen'))
def scaling(H):
    cv = mkcurve(H, param=False)
    s = H.real('s', -16, 16)
    d = H.sk.Curve(cv.data * s)
    k = nch(H, cv.m)
    a = H.abs(s)
    sc = (1 + a) * (1 + cv.m * H.mag) if not H.symbolic else None
    for i in H.each(k):
        H.check('chord', H.close(H.at(d.chordlen, i), a * H.at(cv.c.chordlen, i), scale=sc))
    H.induct('cumulative', cv.m, lambda i: H.close(H.at(d.cumarclen, i), a * H.at(cv.c.cumarclen, i), scale=sc))
    H.sum_eq('scaled-chord', k, lambda i: H.at(d.chordlen, i), lambda i: a * H.at(cv.c.chordlen, i))
    H.check('arc-length', H.close(d.arclen, a * H.num(cv.c.arclen), scale=sc))


@contract('C13', functions=('_diffgeom.chordlen', '_diffgeom.arclen', 'Curve.reverse'))
def reversal(H):
    cv = mkcurve(H)
    r = cv.c.reverse()
    k = nch(H, cv.m)
    H.check('count', H.shape_is(r.chordlen, k))
    for i in H.each(k):
        H.check('chord', H.close(H.at(r.chordlen, i), H.at(cv.c.chordlen, k - 1 - i)))
    H.sum_reversal(k, lambda i: H.at(cv.c.chordlen, i))
    H.sum_eq('reversed-chord', k, lambda i: H.at(r.chordlen, i), lambda i: H.at(cv.c.chordlen, k - 1 - i))
    H.check('arc-length', H.close(r.arclen, cv.c.arclen, scale=1 + cv.m * H.mag if not H.symbolic else None))


@contract('C13', functions=('_diffgeom.chordlen', '_diffgeom.arclen', 'CurvePointFunctionMixin.cumarclen', '_numeric.as_inexact'))
def integer_coordinates(H):
    """The lengths of a curve of integers are those of the same numbers as floating point ones."""
    c, f, m, n = int_curves(H, 'c', int_dtype(H))
    k = nch(H, m)
    for i in H.each(k):
        H.check('chord', H.close(H.at(c.chordlen, i), H.at(f.chordlen, i)))
    for i in H.each(m):
        H.check('cumulative', H.close(H.at(c.cumarclen, i), H.at(f.cumarclen, i)))
    H.check('arc-length', H.close(c.arclen, f.arclen))


@contract('C13', functions=('_diffgeom.chordlen', '_diffgeom.arclen', 'CurvePointFunctionMixin.cumarclen', 'Curve.t'), deductive=False,
          bound='scales 2^-120 to 2^120')
def any_scale(H):
    """Lengths of a very small or very large curve are the scaled ones."""
    cv, s = mkcurve(H, param=False), power(H)
    d = H.sk.Curve(cv.data * s)
    for name in ('chordlen', 'cumarclen', 'arclen', 't'):
        a, b = H.np.asarray(getattr(cv.c, name)), H.np.asarray(getattr(d, name)) / s
        H.check(name, a.shape == b.shape and bool((H.np.abs(a - b) <= 1e-9 * cv.m * (1 + H.mag)).all()))
