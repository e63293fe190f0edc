from pydv.contract import contract
from common import mkcurve, unchanged, power

MOD = '_interpolate.'
CLASSES = dict(linear='LinearInterpolator', cubic='CubicSplineInterpolator', hermite='CubicHermiteSplineInterpolator', akima='AkimaInterpolator',
               pchip='PchipInterpolator', spline='SplineInterpolator', csaps='CsapsInterpolator')
F0 = (MOD + 'interpolate', MOD + 'get_interpolator', MOD + 'InterpolatorBase.__call__', MOD + 'InterpolatorBase._get_interpolation_grid',
      'Curve.interpolate')
F = F0 + tuple(MOD + c + '.' + f for c in CLASSES.values() for f in ('__init__', '_interpolate'))
METHODS = ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
LEAST = dict(linear=2, cubic=2, hermite=2, akima=2, pchip=2, spline=4, csaps=2)
# parameters with which the method interpolates (and reproduces affine curves)
PARAMS = {'linear': [{}, {'extrapolate': True}], 'cubic': [{}, {'bc_type': 'natural'}, {'bc_type': 'not-a-knot'}],
          'hermite': [{}], 'akima': [{}], 'pchip': [{}, {'extrapolate': True}], 'spline': [{}, {'k': 1}, {'k': 2}, {'smooth': 0.0}],
          'csaps': [{}, {'smooth': 1.0}]}


def per_method(methods=METHODS, **opts):
    """One contract per interpolation method."""
    def dec(fn):
        for m in methods:
            def one(H, m=m):
                return fn(H, m, H.choice('params', PARAMS[m][:2] if H.symbolic else PARAMS[m]))
            one.__name__ = '%s_%s' % (fn.__name__, m)
            one.__doc__ = fn.__doc__
            contract('C18', functions=F0 + (MOD + CLASSES[m] + '.__init__', MOD + CLASSES[m] + '._interpolate'), **opts)(one)
        return fn
    return dec


class In(object):
    """A curve with a strictly increasing parameter and enough points, and a strictly increasing grid."""

    def __init__(self, H, meth, inside=False, dtypes=('float64',), param=None, dims=None):
        self.H = H
        nd = None
        if meth == 'spline' and H.symbolic:
            nd = dims or H.choice('dims', (2, 3))
        cv = self.cv = mkcurve(H, lo=LEAST[meth], tkind='inc', ndim=nd, dtypes=dtypes, param=param)
        self.c, self.m, self.n = cv.c, cv.m, cv.n
        self.ready(cv)
        self.g = self.grid(inside)

    def ready(self, cv):
        H = self.H
        if cv.param:
            if not H.symbolic:
                H.assume((H.np.diff(cv.tdata) > 1e-3).all())
            return
        if H.symbolic:
            cum = H.preset(cv.c, 'cumarclen', H.local('cumarclen', cv.m))
            H.relies('C13/lengths', H.close(H.at(cum, 0), 0.0))
            H.assume(H.forall(cv.m - 1, lambda i: H.at(cum, i) < H.at(cum, i + 1)))
        else:
            H.assume((cv.c.chordlen > 1e-3).all())

    def t(self, i):
        return self.H.at(self.c.t, i)

    def grid(self, inside):
        """A strictly increasing grid; inside: within the range of the curve."""
        H = self.H
        self.gn = n = H.size('grid_size', 1)

        def draw():
            t = [float(x) for x in self.c.t]
            a, b = t[0], t[-1]
            w = 0.0 if inside else (b - a) * H.rng.choice((0.0, 0.0, 0.3))
            x = [a - w, b + w][:int(n)]
            while len(x) < n:
                x.append(H.rng.choice((H.rng.choice(t), H.rng.uniform(a - w, b + w))))
            return sorted(x)
        g = H.array('grid', n, kind='inc', fill=draw)
        H.assume(H.forall(n - 1, lambda i: H.at(g, i + 1) - H.at(g, i) > 1e-6))
        if inside:
            H.assume(H.And(H.at(g, 0) >= self.t(0), H.at(g, n - 1) <= self.t(self.m - 1)))
        return g


def each2(H, m, n):
    """Index pairs; a known number of columns is enumerated."""
    if type(n) is int:
        return [(k, j) for j in range(n) for k in H.each(m)]
    return H.each(m, n)


def quiet(H, f):
    return H.warns(f)[0]


def sc(H, k=1.0):
    """Rounding of spline coefficients."""
    return None if H.symbolic else 1e4 * k * (1 + H.mag)


@per_method()
def shape(H, m, kw):
    I = In(H, m, inside=True, dtypes=('float64', 'int64'))
    r = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw))
    H.check('is-curve', isinstance(r, H.sk.Curve))
    H.check('one-point-per-value', H.And(r.size == I.gn, r.ndim == I.n, H.shape_is(r.data, I.gn, I.n)))
    H.check('dtype', H.is_dtype(r, I.cv.dtype))
    H.check('parametric-as-the-curve', r.isparametric == I.cv.param)
    if I.cv.param:
        H.check('parameter-size', H.shape_is(r.t, I.gn))
        for i in H.each(I.gn):
            H.check('parameter-is-the-grid', H.exact(H.at(r.t, i), H.at(I.g, i)))
    unchanged(H, 'source', I.cv)


@contract('C18', functions=F0)
def empty_and_single(H):
    """An empty curve gives an empty curve of its dimension and dtype with a warning, a single point is rejected."""
    mod = H.load('skcurve._interpolate')
    m = H.choice('method', METHODS)
    kw = H.choice('params', PARAMS[m])
    grid = H.choice('grid', (3, [0.0, 1.0, 2.0]))
    cv = mkcurve(H, hi=0, dtypes=('float64', 'float32', 'int64', 'int32'), param=False)
    r, w = H.warns(lambda: cv.c.interpolate(grid, method=m, **kw))
    H.check('empty', H.And(r.size == 0, r.ndim == cv.n))
    H.check('dtype', H.is_dtype(r, cv.dtype))
    H.check('warning', mod.InterpolationWarning in w)
    one = mkcurve(H, 'one', lo=1, hi=1, dtypes=('float64', 'int64'))
    H.raises('single-point', ValueError, lambda: one.c.interpolate(grid, method=m, **kw))


@contract('C18', functions=(MOD + 'InterpolatorBase.__call__',))
def registered_classes_empty_and_single(H):
    """The same for interpolators used directly."""
    mod = H.load('skcurve._interpolate')

    class Mine(mod.InterpolatorBase):
        def _interpolate(self, grid):
            raise AssertionError('not reached')
    cv = mkcurve(H, hi=0, dtypes=('float64', 'float32', 'int64', 'int32'), param=False)
    r, w = H.warns(lambda: Mine(cv.c)(3))
    H.check('empty', H.And(r.size == 0, r.ndim == cv.n))
    H.check('dtype', H.is_dtype(r, cv.dtype))
    H.check('warning', mod.InterpolationWarning in w)
    one = mkcurve(H, 'one', lo=1, hi=1, dtypes=('float64', 'int64'))
    H.raises('single-point', ValueError, lambda: Mine(one.c)(3))


@per_method()
def nodes(H, m, kw):
    """At the parameter value of a point the value is the point."""
    I = In(H, m, inside=True)
    r = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw))
    if H.symbolic:
        k, i = H.int('k', 0, I.gn - 1), H.int('i', 0, I.m - 1)
        H.assume(H.at(I.g, k) == I.t(i))
        pairs = [(k, i)]
    else:
        pairs = [(k, i) for k in range(int(I.gn)) for i in range(int(I.m)) if I.g[k] == I.c.t[i]]
    for k, i in pairs:
        for j in (range(I.n) if type(I.n) is int else H.each(I.n)):
            H.check('reproduced', H.close(H.at(r.data, k, j), I.cv.P(i, j), scale=sc(H)))


@per_method()
def affine(H, m, kw):
    """P = A + B t is reproduced at every grid value in the range."""
    nd = H.choice('dims', (2, 3)) if m == 'spline' and H.symbolic else H.size('n', 2)
    sz = H.size('m', LEAST[m])
    t = H.array('t', sz, kind='inc')
    if not H.symbolic:
        H.assume((H.np.diff(t) > 1e-3).all())
    A, B = H.array('a', nd), H.array('b', nd)
    I = In.__new__(In)
    I.H, I.c, I.m, I.n = H, H.sk.Curve(A + B * t[:, H.np.newaxis], tdata=t), sz, nd
    H.affine(lambda j: (H.at(A, j), H.at(B, j)), nd)
    I.g = I.grid(True)
    r = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw))
    for k, j in each2(H, I.gn, nd):
        H.check('reproduced', H.close(H.at(r.data, k, j), H.at(A, j) + H.at(B, j) * H.at(I.g, k), scale=sc(H, 1 + H.mag if not H.symbolic else 1)))


@per_method()
def translation(H, m, kw):
    I = In(H, m, inside=True, param=True)
    v = H.array('v', I.n)
    d = H.sk.Curve(I.cv.data + v, tdata=I.cv.tdata)
    r, s = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw)), quiet(H, lambda: d.interpolate(I.g, method=m, **kw))
    for k, j in each2(H, I.gn, I.n):
        a = H.at(r.data, k, j)
        H.check('shifted', H.close(H.at(s.data, k, j), a + H.at(v, j), scale=sc(H)))


@per_method()
def dimension_order(H, m, kw):
    """Column j of the result depends on column j of the curve only, in the same way for every column."""
    I = In(H, m, inside=True, param=True, dims=2)
    n2 = 3 if m == 'spline' and H.symbolic else H.size('n2', 2)
    Q = H.array('other', (I.m, n2))
    if m == 'spline' and H.symbolic:
        j, l = H.choice('j', range(I.n)), H.choice('l', range(n2))
    else:
        j, l = H.int('j', 0, I.n - 1), H.int('l', 0, n2 - 1)
    D = H.build((I.m, n2), lambda i, c: H.If(c == l, I.cv.P(i, j), H.at(Q, i, c)))
    d = H.sk.Curve(D, tdata=I.cv.tdata)
    r, s = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw)), quiet(H, lambda: d.interpolate(I.g, method=m, **kw))
    for k in H.each(I.gn):
        a = H.at(r.data, k, j)
        H.check('same-column', H.close(H.at(s.data, k, l), a, scale=sc(H)))


@contract('C18', functions=F, deductive=False, bound='curves of up to 12 points: non-parametric straight lines')
def straight_lines(H):
    """A non-parametric straight line is reproduced: the points at arc length s."""
    m = H.choice('method', METHODS)
    kw = H.choice('params', PARAMS[m])
    n, sz = H.size('n', 2, 5), H.size('m', LEAST[m], 12)
    A, D = H.array('a', n), H.array('d', n)
    L = float(H.np.sqrt((D * D).sum()))
    H.assume(L > 1e-3)
    t = H.array('t', sz, kind='inc')
    H.assume((H.np.diff(t) > 1e-2).all())
    t = t - t[0]
    D = D / L
    I = In.__new__(In)
    I.H, I.c, I.m, I.n = H, H.sk.Curve(A + D * t[:, None]), sz, n
    I.g = I.grid(True)
    r = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw))
    for k, j in H.each(I.gn, n):
        H.check('reproduced', H.close(H.at(r.data, k, j), A[j] + D[j] * I.g[k], scale=sc(H, 10)))


@contract('C18', functions=F, deductive=False, bound='smoothing parameters and weights: curves of up to 15 points')
def smoothing_interpolators(H):
    """spline and csaps with smoothing and weights: shape, translation, affine curves."""
    m = H.choice('method', ('spline', 'csaps'))
    sz = H.size('m', 6, 15)
    cv = mkcurve(H, lo=sz, hi=sz, tkind='inc', param=True)
    H.assume((H.np.diff(cv.tdata) > 1e-2).all())
    w = H.array('w', sz, kind='pos')
    s = H.real('smooth', 0, 1)
    kw = dict(smooth=s)
    if H.choice('weights', (False, True)):
        kw['weights'] = w
    I = In.__new__(In)
    I.H, I.c, I.m, I.n = H, cv.c, sz, cv.n
    I.g = I.grid(True)
    r = quiet(H, lambda: cv.c.interpolate(I.g, method=m, **kw))
    H.check('shape', H.shape_is(r.data, I.gn, cv.n))
    A, B = H.array('a', cv.n), H.array('b', cv.n)
    d = H.sk.Curve(A + B * cv.tdata[:, None], tdata=cv.tdata)
    q = quiet(H, lambda: d.interpolate(I.g, method=m, **kw))
    for k, j in H.each(I.gn, cv.n):
        H.check('affine', H.close(H.at(q.data, k, j), A[j] + B[j] * I.g[k], scale=sc(H, 1 + H.mag)))


@per_method(deductive=False, bound='scales 2^-120 to 2^120')
def any_scale(H, m, kw):
    """The interpolation of a very small or very large parametric curve is the scaled one."""
    I, s = In(H, m, inside=True, param=True), power(H)
    d = H.sk.Curve(I.cv.data * s, tdata=I.cv.tdata)
    a, b = quiet(H, lambda: I.c.interpolate(I.g, method=m, **kw)).data, quiet(H, lambda: d.interpolate(I.g, method=m, **kw)).data / s
    H.check('scaled', a.shape == b.shape and bool((H.np.abs(a - b) <= 1e-9 * sc(H)).all()))
