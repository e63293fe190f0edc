"""Contracts of scipy, csaps, networkx and small support libraries."""
import functools
import types
import numpy as rnp
import z3
from . import core, sym, npstub, arrays
from .core import Unsupported
from .sym import SymNum, term, to_real, F64
from .arrays import SymArray, dim, dt, t_sum


def _mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


class cached_property:
    def __init__(self, func):
        self.func = func
        self.__doc__ = getattr(func, '__doc__', None)
        self.name = func.__name__

    def __get__(self, obj, cls):
        if obj is None:
            return self
        v = obj.__dict__[self.name] = self.func(obj)
        if core.E is not None and core.E.undo:
            core.E.undo[-1].append((obj, self.name))
        return v


class _Protocol:
    pass


class _Final:
    def __getitem__(self, k):
        return k


# ---- scipy.spatial.distance
def euclidean(u, v, w=None):
    if w is not None:
        return MetricValue('euclidean', (u, v), dict(w=w))
    u, v = npstub.asarray(u), npstub.asarray(v)
    if u.ndim > 1 or v.ndim > 1:
        raise ValueError('Input vector should be 1-D.')
    d = u - v
    core.E.trusted.add('scipy.spatial.distance.euclidean')
    return npstub.sqrt(npstub.sum(d * d))


def sqeuclidean(u, v, w=None):
    if w is not None:
        return MetricValue('sqeuclidean', (u, v), dict(w=w))
    core.E.trusted.add('scipy.spatial.distance.sqeuclidean')
    d = npstub.asarray(u) - npstub.asarray(v)
    return npstub.sum(d * d)


def cityblock(u, v, w=None):
    if w is not None:
        return MetricValue('cityblock', (u, v), dict(w=w))
    core.E.trusted.add('scipy.spatial.distance.cityblock')
    return npstub.sum(npstub.abs(npstub.asarray(u) - npstub.asarray(v)))


def chebyshev(u, v, w=None):
    if w is not None:
        return MetricValue('chebyshev', (u, v), dict(w=w))
    core.E.trusted.add('scipy.spatial.distance.chebyshev')
    return npstub.max(npstub.abs(npstub.asarray(u) - npstub.asarray(v)))


class MetricValue:
    """The value of an otherwise unspecified metric."""

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw


def _metric(name):
    def f(*args, **kw):
        return MetricValue(name, args, kw)
    f.__name__ = name
    return f


_METRICS = ['braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean',
            'jensenshannon', 'mahalanobis', 'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski']


def _uns(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


# ---- interpolation: an interpolator maps a grid of length g to a g x (data dims) array
class _Interp:
    """f = Interp(x, y, axis=0); f(grid)[k, j] is an unspecified function of grid[k], the nodes and the data column j:
      - the value at a node is the data value (interpolating methods);
      - a column that is affine in the nodes gives that affine function;
      - columns that differ by a constant over the same nodes give values that differ by it (so equal columns give
        equal values).
    Instances are added for the ground values a contract mentions."""
    label = 'interp'
    outside = True            # defined outside the range of the nodes

    def setup(self, x, y, axis, key, nodes, extra=None, least=2):
        e = core.E
        e.trusted.add('scipy/csaps interpolators: node values, affine functions, dependence on one column, shift by constants')
        x, y = npstub.asarray(x), npstub.asarray(y)
        self.turned = False
        if axis % y.ndim:
            if y.ndim != 2:
                raise Unsupported('interpolator axis')
            y, self.turned = y.T, True
        from .arrays import dims_equal
        if not dims_equal(x.shape[0], y.shape[0]):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if x.shape[0] < least:
            raise ValueError('too few data points')
        self.x, self.y, self.m = x.snap(), y.snap(), dt(x.shape[0])
        self.xs, self.ys = x.shape, y.shape
        self.key, self.nodes = (self.label,) + key, nodes
        self.extra = extra.snap() if extra is not None else None
        self.f = z3.Function(e.fresh('interp_' + self.label), *([z3.RealSort()] + [z3.IntSort()] * (y.ndim - 1) + [z3.RealSort()]))

    def val(self, g, r):
        g = z3.simplify(to_real(g))
        t = self.f(g, *r)
        e = core.E
        if not arrays.has_bound(t):
            e.axiom(('interp', t.get_id(), t), lambda: self.facts(g, r, t))
        return t

    def facts(self, g, r, t):
        e = core.E
        x, y, m = (lambda i: to_real(self.x(i))), (lambda i: to_real(self.y(i, *r))), self.m
        J = z3.Int('J?ip')
        rng = z3.And(J >= 0, J < m)
        z, last = z3.IntVal(0), z3.simplify(m - 1)
        inside = z3.BoolVal(True) if self.outside else z3.And(x(z) <= g, g <= x(last))
        out = []
        if self.nodes:
            out.append(z3.ForAll([J], z3.Implies(z3.And(rng, x(J) == g), t == y(J))))
            out += [z3.Implies(x(q) == g, t == y(q)) for q in (z, last)]
        d = (lambda i: to_real(self.extra(i, *r))) if self.extra is not None else None
        hints = [h for f in e.memo.get('affine', ()) for h in f(r)]
        plain = [h for h in hints if z3.is_true(z3.simplify(y(J) == h[0] + h[1] * x(J)))]
        hints = plain or hints
        for c, s in hints:
            # columns affine in the nodes (with that derivative): the affine function
            k = [z3.ForAll([J], z3.Implies(rng, z3.simplify(y(J) == c + s * x(J))))]
            if d:
                f = z3.simplify(d(J) == s)
                q = z3.Int(e.fresh('node'))
                at = z3.substitute(f, (J, q))
                # the condition on the derivative is tried for an arbitrary node, end nodes separately
                cases = (q == 0, q == last, z3.And(q > 0, q < last))
                if not all(e.entails(z3.Implies(z3.And(c, q >= 0, q < m), at)) for c in cases):
                    k.append(z3.ForAll([J], z3.Implies(rng, f)))
            out.append(z3.Implies(z3.simplify(z3.And([inside] + k)), t == c + s * g))
        for o, og, orr, ot in e.memo.get('interps', ()):
            if o.key != self.key or (o.extra is None) != (self.extra is None) or 'affine' in e.memo:
                continue
            oy = lambda i: to_real(o.y(i, *orr))
            c = y(z) - oy(z)
            same = [og == g, o.m == m,
                    z3.ForAll([J], z3.Implies(rng, z3.And(to_real(o.x(J)) == x(J), y(J) - oy(J) == c)))]
            if self.extra is not None:
                same.append(z3.ForAll([J], z3.Implies(rng, to_real(o.extra(J, *orr)) == to_real(self.extra(J, *r)))))
            out.append(z3.Implies(z3.And(same), t - ot == c))
        e.memo['interps'] = e.memo.get('interps', []) + [(self, g, r, t)]
        return out

    def __call__(self, grid):
        grid = npstub.asarray(grid)
        if grid.ndim != 1:
            raise Unsupported('interpolator call')
        g = grid.snap()
        r = SymArray(grid.shape + self.ys[1:], F64, lambda k, *r: self.val(g(k), r))
        return r.T if self.turned else r


def _kv(*vals):
    """Parameters as a comparable key."""
    out = []
    for v in vals:
        if isinstance(v, SymNum):
            t = z3.simplify(v.t)
            out.append(('term', t.get_id(), t.sexpr()))
        elif isinstance(v, SymArray):
            raise Unsupported('array parameter of an interpolator')
        else:
            out.append(repr(v))
    return tuple(out)


class interp1d(_Interp):
    label = 'interp1d'

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=float('nan'), assume_sorted=False):
        if fill_value is None or (not isinstance(fill_value, str) and fill_value == fill_value):
            raise Unsupported('interp1d fill value')
        self.extrapolate = fill_value == 'extrapolate'
        self.raising = not self.extrapolate and bounds_error is not False
        self.outside = self.extrapolate
        self.kind = kind
        y = npstub.asarray(y)
        self.setup(x, y, axis, _kv(kind), True)

    def __call__(self, grid):
        grid = npstub.asarray(grid)
        if self.raising:
            g, lo, hi = grid.snap(), to_real(self.x(z3.IntVal(0))), to_real(self.x(z3.simplify(self.m - 1)))
            ok = arrays.t_forall(grid.shape[0], lambda k: z3.And(lo <= to_real(g(k)), to_real(g(k)) <= hi))
            if not core.E.decide(ok):
                raise ValueError('A value in x_new is out of the interpolation range.')
        return _Interp.__call__(self, grid)

    def facts(self, g, r, t):
        out = _Interp.facts(self, g, r, t)
        if self.kind == 'linear':
            # between the data values of the interval
            x, y, m = (lambda i: to_real(self.x(i))), (lambda i: to_real(self.y(i, *r))), self.m
            k = z3.Int(core.E.fresh('interval'))
            a, b = y(k), y(z3.simplify(k + 1))
            out.append(z3.Implies(z3.And(x(z3.IntVal(0)) <= g, g <= x(z3.simplify(m - 1))), z3.And(
                k >= 0, k < m - 1, x(k) <= g, g <= x(z3.simplify(k + 1)),
                z3.If(a <= b, z3.And(a <= t, t <= b), z3.And(b <= t, t <= a)))))
        return out


class CubicSpline(_Interp):
    label = 'CubicSpline'

    def __init__(self, x, y, axis=0, bc_type='not-a-knot', extrapolate=None):
        if bc_type not in ('natural', 'not-a-knot') or extrapolate is False or extrapolate == 'periodic':
            raise Unsupported('CubicSpline parameters')
        self.setup(x, y, axis, _kv(bc_type), True)


class CubicHermiteSpline(_Interp):
    label = 'CubicHermiteSpline'

    def __init__(self, x, y, dydx, axis=0, extrapolate=None):
        if extrapolate is False or extrapolate == 'periodic':
            raise Unsupported('CubicHermiteSpline parameters')
        d = npstub.asarray(dydx)
        if d.ndim != npstub.asarray(y).ndim or not arrays.dims_equal(d.shape[0], npstub.asarray(y).shape[0]):
            raise ValueError('The shapes of `y` and `dydx` must be identical.')
        self.setup(x, y, axis, (), True, d)


class Akima1DInterpolator(_Interp):
    label = 'Akima'
    outside = False

    def __init__(self, x, y, axis=0):
        self.setup(x, y, axis, (), True)


class PchipInterpolator(_Interp):
    label = 'Pchip'

    def __init__(self, x, y, axis=0, extrapolate=None):
        if extrapolate is False:
            raise Unsupported('PchipInterpolator parameters')
        self.setup(x, y, axis, (), True)


class UnivariateSpline(_Interp):
    label = 'UnivariateSpline'

    def __init__(self, x, y, w=None, bbox=None, k=3, s=None, ext=0, check_finite=False):
        if w is not None or bbox is not None or ext not in (0, 'extrapolate') or k not in (1, 2, 3, 4, 5):
            raise Unsupported('UnivariateSpline parameters')
        if s is None:
            raise Unsupported('UnivariateSpline smoothing condition')
        self.setup(x, y, 0, _kv(k, s), bool(s == 0), least=k + 1)


class CubicSmoothingSpline(_Interp):
    label = 'csaps'

    def __init__(self, xdata, ydata, weights=None, smooth=None, axis=-1):
        if weights is not None:
            raise Unsupported('csaps weights')
        if smooth is None:
            raise Unsupported('csaps automatic smoothing')
        self.setup(xdata, ydata, axis, _kv(smooth), bool(smooth == 1))


def fresnel(t):
    return (npstub._ew1(lambda x: sym._FS(to_real(x)), npstub._flt)(t),
            npstub._ew1(lambda x: sym._FC(to_real(x)), npstub._flt)(t))


# ---- smoothing
def _axis_read(data, axis):
    """(length along the axis, read(k, ix)): the element at position k of the line through ix along the axis."""
    axis = axis % data.ndim
    f = data.snap()
    return axis, data.shape[axis], lambda k, ix: to_real(f(*(ix[:axis] + (k,) + ix[axis + 1:])))


def convolve1d(input, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
    """out[i] = sum_k w[k] in[R(i, k)] along the axis, R a position of the line given by the mode and the sizes."""
    data, w = npstub.asarray(input), npstub.asarray(weights)
    if output is not None or mode not in ('reflect', 'mirror', 'nearest', 'wrap') or not isinstance(origin, int) or origin != 0:
        raise Unsupported('convolve1d output, mode %r, origin' % (mode,))
    if w.ndim != 1:
        raise RuntimeError('no filter weights given')
    e = core.E
    e.trusted.add('scipy.ndimage.convolve1d: weighted sum of elements of the line, the same positions for every line')
    axis, m, read = _axis_read(data, axis)
    L = w.shape[0]
    R = z3.Function('CONV_%s' % mode, *([z3.IntSort()] * 5))
    mt, Lt = dt(m), dt(L)
    wf = w.snap()
    a, b = z3.Ints('J?ca J?cb')
    e.axiom(('conv', mode, mt.get_id(), mt, Lt.get_id(), Lt), lambda: [z3.ForAll(
        [a, b], z3.Implies(z3.And(a >= 0, a < mt, b >= 0, b < Lt), z3.And(R(a, b, mt, Lt) >= 0, R(a, b, mt, Lt) < mt)),
        patterns=[R(a, b, mt, Lt)])])

    def elem(*ix):
        return t_sum(L, lambda k: to_real(wf(k)) * read(R(ix[axis], k, mt, Lt), ix))
    r = SymArray(data.shape, data.dtype, elem if data.dtype.kind == 'f' else lambda *ix: z3.ToInt(elem(*ix)))
    r.weights = (wf, L, lambda i, k: R(i, k, mt, Lt))
    e.memo['convolve1d'] = r.weights
    return r


def savgol_filter(x, window_length, polyorder, deriv=0, delta=1.0, axis=-1, mode='interp', cval=0.0):
    """out[i] = sum_k C(i, k) in[k] along the axis with coefficients that depend on the parameters only; without
    derivation they reproduce polynomials up to the order (mode interp), constants in every mode without fill value."""
    data = npstub.asarray(x)
    if mode not in ('mirror', 'constant', 'nearest', 'interp', 'wrap'):
        raise ValueError("mode must be 'mirror', 'constant', 'nearest' 'wrap' or 'interp'.")
    if mode == 'constant':
        raise Unsupported('savgol_filter mode constant')
    if polyorder >= window_length:
        raise ValueError('polyorder must be less than window_length.')
    if window_length % 2 != 1:
        raise ValueError('window_length must be odd')
    axis, m, read = _axis_read(data, axis)
    mt = dt(m)
    if mode == 'interp' and window_length > SymNum(mt):
        raise ValueError("If mode is 'interp', window_length must be less than or equal to the size of x.")
    e = core.E
    e.trusted.add('scipy.signal.savgol_filter: linear along the axis, the same coefficients for every line, polynomial reproduction')
    I, Re = z3.IntSort(), z3.RealSort()
    C = z3.Function('SAVGOL_%s' % mode, I, I, I, I, I, I, Re, Re)
    par = (term(window_length), term(polyorder), term(deriv), mt, to_real(term(delta)))

    def coef(i, k):
        return C(i, k, *par)

    def elem(*ix):
        i = ix[axis]
        if isinstance(deriv, int) and deriv == 0 and not arrays.has_bound(i):
            def facts():
                out = [t_sum(m, lambda k: coef(i, k)) == 1]
                if mode == 'interp':
                    for p in range(1, 8):
                        q = lambda k: functools.reduce(lambda u, v: u * v, [z3.ToReal(k)] * p)
                        out.append(z3.Implies(par[1] >= p, t_sum(m, lambda k: coef(i, k) * q(k)) == q(i)))
                return [z3.Implies(z3.And(i >= 0, i < mt), f) for f in out]
            e.axiom(('savgol', i.get_id(), i) + tuple(x for t in par for x in (t.get_id(), t)), facts)
        return t_sum(m, lambda k: coef(i, k) * read(k, ix))
    d = data.dtype if data.dtype == rnp.float32 else F64
    return SymArray(data.shape, d, elem)


def get_window(window, Nx, fftbins=True):
    """A vector of Nx values that depend on the kind, the size and the symmetry flag only."""
    e = core.E
    e.trusted.add('scipy.signal.windows.get_window: a vector of the given size')
    if window not in WINDOWS:
        raise ValueError('Unknown window type.')
    W = z3.Function('WINDOW_%s_%s' % (window, bool(fftbins)), z3.IntSort(), z3.IntSort(), z3.RealSort())
    n = term(Nx)
    return SymArray((Nx,), F64, lambda i: W(i, n))


WINDOWS = ('hann', 'hamming', 'blackman', 'boxcar', 'triang', 'bartlett', 'parzen', 'bohman', 'nuttall', 'barthann', 'flattop')


def modules():
    dist = _mod('scipy.spatial.distance', pdist=_uns('pdist'), squareform=_uns('squareform'),
                **{n: _metric(n) for n in _METRICS})
    dist.euclidean, dist.sqeuclidean, dist.cityblock, dist.chebyshev = euclidean, sqeuclidean, cityblock, chebyshev
    spatial = _mod('scipy.spatial', distance=dist)
    interp = _mod('scipy.interpolate', interp1d=interp1d, CubicSpline=CubicSpline, CubicHermiteSpline=CubicHermiteSpline,
                  Akima1DInterpolator=Akima1DInterpolator, PchipInterpolator=PchipInterpolator, UnivariateSpline=UnivariateSpline)
    win = _mod('scipy.signal.windows', get_window=get_window)
    signal = _mod('scipy.signal', savgol_filter=savgol_filter, windows=win)
    ndimage = _mod('scipy.ndimage', convolve1d=convolve1d)
    special = _mod('scipy.special', fresnel=fresnel)
    sp = _mod('scipy', spatial=spatial, interpolate=interp, signal=signal, ndimage=ndimage, special=special)
    csaps = _mod('csaps', CubicSmoothingSpline=CubicSmoothingSpline)
    nx = _mod('networkx', Graph=_uns('networkx.Graph'), connected_components=_uns('connected_components'))
    cp = _mod('cached_property', cached_property=cached_property)
    te = _mod('typing_extensions', Protocol=_Protocol, Final=_Final())
    out = {m.__name__: m for m in (dist, spatial, interp, win, signal, ndimage, special, sp, csaps, nx, cp, te)}
    return out
