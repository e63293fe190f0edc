from pydv.contract import contract
from common import mkcurve

MOD = '_interpolate.'
GRIDS = (MOD + 'UniformInterpolationGrid.__init__', MOD + 'UniformInterpolationGrid.__call__')
EXT = (MOD + 'UniformExtrapolationGrid.__init__', MOD + 'UniformExtrapolationGrid.__call__')
SPEED = (MOD + 'PreservedSpeedInterpolationGrid.__init__', MOD + 'PreservedSpeedInterpolationGrid.__call__', '_numeric.linrescale')
CHECK = (MOD + 'InterpolatorBase._get_interpolation_grid', MOD + 'InterpolatorBase.__call__')


class C(object):
    """A curve whose parameter is strictly increasing at the ends: first and last parameter, arc length."""

    def __init__(self, H, lo=2, length=False, **kw):
        cv = self.cv = mkcurve(H, lo=lo, tkind='inc', **kw)
        self.c, self.m = cv.c, cv.m
        if H.symbolic:
            # modular: the lengths are those C13 proves (non-negative chords that add up from 0 to the arc length)
            cum = H.preset(cv.c, 'cumarclen', H.local('cumarclen', cv.m))
            H.relies('C13/lengths', H.close(H.at(cum, 0), 0.0))
            H.relies('C13/lengths', H.at(cum, cv.m - 1) >= 0)
            if length:
                H.relies('C13/lengths', H.close(cv.c.arclen, H.at(cum, cv.m - 1)))
        self.a = cv.T(0) if cv.param else 0.0
        self.b = cv.T(cv.m - 1) if cv.param else H.num(cv.c.cumarclen[cv.m - 1])
        H.assume(self.b - self.a > (0 if H.symbolic else 1e-6 if 'factors' not in kw else 1e-30))
        self.sc = None if H.symbolic else 1 + abs(self.a) + abs(self.b)


def uniform(H, K, g, n, tag=''):
    """g has n values equally spaced from the first to the last parameter."""
    H.check(tag + 'size', H.shape_is(g, n))
    H.check(tag + 'first', H.close(H.at(g, 0), K.a, scale=K.sc))
    H.check(tag + 'last', H.close(H.at(g, n - 1), K.b, scale=K.sc))
    for i in H.each(n - 1):
        step = H.at(g, i + 1) - H.at(g, i)
        H.check(tag + 'increasing', step > 0)
        H.check(tag + 'equally-spaced', H.close(step * (n - 1), K.b - K.a, scale=None if H.symbolic else K.sc * n))


@contract('C17', functions=GRIDS)
def uniform_count(H):
    K = C(H)
    n = H.size('count', 2)
    kw = H.choice('kw', ({}, {'kind': 'point'}))
    uniform(H, K, H.sk.UniformInterpolationGrid(n, **kw)(K.c), n)


@contract('C17', functions=GRIDS)
def uniform_length(H):
    """The number of values is one more than the rounded number of chords of that length, at least two."""
    K = C(H, length=True)
    L = H.real('chord', 0.05, 1e6)
    if H.choice('integer', (False, True)):
        L = H.int('whole_chord', 1, 50)
    g = H.sk.UniformInterpolationGrid(L, kind='length')(K.c)
    n = H.len(g)
    q = H.num(K.c.arclen) / L
    H.check('at-least-two', n >= 2)
    H.check('count', H.Or(H.And(n >= 2, H.abs(n - 1 - q) <= 0.5 + (0 if H.symbolic else 1e-9 * (1 + q))), H.And(n == 2, q <= 1)))
    uniform(H, K, g, n)


@contract('C17', functions=GRIDS)
def uniform_arguments(H):
    U = H.sk.UniformInterpolationGrid
    H.raises('too-few', ValueError, lambda: U(H.int('few', -5, 1)))
    H.raises('kind', ValueError, lambda: U(5, kind=H.choice('kind', ('', 'points', 'len', None))))
    H.raises('real-count', TypeError, lambda: U(H.choice('fill', (2.5, 3.0, '3', None)), kind='point'))
    H.raises('length', TypeError, lambda: U(H.choice('length', ('3', None, [1])), kind='length'))
    cv = mkcurve(H, hi=1)
    H.raises('short-curve', ValueError, lambda: U(5)(cv.c))


@contract('C17', functions=GRIDS + EXT)
def extrapolation(H):
    """The uniform grid, extended by whole steps on both sides."""
    K = C(H)
    n = H.size('count', 2)
    before, after = H.size('before', 0), H.size('after', 0)
    U = H.sk.UniformInterpolationGrid(n)
    kw = H.choice('kw', ({}, {'kind': 'point'}))
    g = H.sk.UniformExtrapolationGrid(U, before=before, after=after, **kw)(K.c)
    extended(H, K, U(K.c), g, n, before, after)


def extended(H, K, u, g, n, before, after):
    H.check('size', H.shape_is(g, before + n + after))
    s = None if H.symbolic else K.sc * (1 + before + after)
    step = H.at(u, 1) - H.at(u, 0)
    for i in H.each(n):
        H.check('contains-the-uniform-grid', H.close(H.at(g, before + i), H.at(u, i), scale=s))
    for i in H.each(before):
        H.check('before', H.close(H.at(g, i), K.a - (before - i) * step, scale=s))
    for i in H.each(after):
        H.check('after', H.close(H.at(g, before + n + i), K.b + (i + 1) * step, scale=s))


@contract('C17', functions=GRIDS + EXT)
def extrapolation_length(H):
    """The number of steps on a side is the given length divided by the step, rounded."""
    K = C(H)
    n = H.size('count', 2)
    B = H.real('length', 0, None if H.symbolic else 40)
    side = H.choice('side', ('before', 'after'))
    U = H.sk.UniformInterpolationGrid(n)
    if not H.symbolic:
        B = min(B, 50 * (K.b - K.a) / (n - 1))
    u = U(K.c)
    g = H.sk.UniformExtrapolationGrid(U, kind='length', **{side: B})(K.c)
    step = H.at(u, 1) - H.at(u, 0)
    k = H.len(g) - n
    H.check('not-shorter', k >= 0)
    H.check('rounded-number-of-steps', H.abs(k * step - B) <= step / 2 + (0 if H.symbolic else 1e-9 * K.sc * (1 + B)))
    extended(H, K, u, g, n, k if side == 'before' else 0, k if side == 'after' else 0)


@contract('C17', functions=EXT)
def extrapolation_arguments(H):
    U, E = H.sk.UniformInterpolationGrid(5), H.sk.UniformExtrapolationGrid
    H.raises('kind', ValueError, lambda: E(U, 1, 1, kind=H.choice('kind', ('', 'points', None))))
    w = H.choice('which', ('before', 'after'))
    H.raises('real-count', TypeError, lambda: E(U, **{w: H.choice('amount', (1.5, '1', None))}))
    H.raises('not-a-number', TypeError, lambda: E(U, kind='length', **{w: H.choice('length', ('1', None))}))


@contract('C17', functions=SPEED)
def preserved_speed(H):
    """As many values as requested, from the first to the last parameter (the interpolation being linear: not decreasing)."""
    K = C(H, length=True)
    n = H.size('count', 2)
    if H.symbolic and not K.cv.param:
        m, cum = K.m, K.c.cumarclen
        H.relies('C13/lengths', H.forall(m, lambda i: H.And(H.at(cum, i) >= 0, H.at(cum, i) <= H.at(cum, m - 1))))
    g = H.sk.PreservedSpeedInterpolationGrid(n)(K.c)
    if H.symbolic:
        H.at(g, 0), H.at(g, n - 1)
    H.check('size', H.shape_is(g, n))
    H.check('first', H.close(H.at(g, 0), K.a, scale=K.sc))
    H.check('last', H.close(H.at(g, n - 1), K.b, scale=K.sc))
    e = 0 if H.symbolic else 1e-9 * K.sc
    for i in H.each(n):
        H.check('within-the-range', H.And(K.a - e <= H.at(g, i), H.at(g, i) <= K.b + e))


@contract('C17', functions=SPEED)
def speed_at_points(H):
    """With as many values as points the grid of a curve without a parameter is the arc length at its points: the speed is kept."""
    K = C(H, length=True, param=False, factors=(1, 1, 1e-9, 1e-4, 1e5))
    if H.symbolic:
        m, cum = K.m, K.c.cumarclen
        H.relies('C13/lengths', H.forall(m, lambda i: H.And(H.at(cum, i) >= 0, H.at(cum, i) <= H.at(cum, m - 1))))
    g = H.sk.PreservedSpeedInterpolationGrid(K.m)(K.c)
    if H.symbolic:
        H.at(g, 0), H.at(g, K.m - 1)
    H.check('size', H.shape_is(g, K.m))
    for i in H.each(K.m):
        H.check('arc-length', H.close(H.at(g, i) / K.b, H.num(K.c.cumarclen[i]) / K.b, scale=1))


@contract('C17', functions=SPEED, deductive=False, bound='curves of up to 40 points of any size, up to 60 values')
def speed_between_points(H):
    """The values are the arc lengths at equally spaced positions between the points."""
    K = C(H, length=True, param=False, factors=(1, 1, 1e-9, 1e-4, 1e5))
    n = H.size('count', 2)
    g = H.sk.PreservedSpeedInterpolationGrid(n)(K.c)
    H.check('size', H.shape_is(g, n))
    want = H.np.interp(H.np.linspace(0, K.m - 1, n), H.np.arange(K.m), K.c.cumarclen)
    for i in H.each(n):
        H.check('arc-length', H.close(g[i] / K.b, want[i] / K.b, scale=1))


def spec(H, g):
    """The grid in one of the accepted forms."""
    kind = H.choice('form', ('array', 'grid-object') + (() if H.symbolic else ('list', 'tuple')))
    if kind == 'array':
        return g
    if kind == 'list':
        return g.tolist()
    if kind == 'tuple':
        return tuple(g.tolist())

    class Mine(H.sk.InterpolationGrid if hasattr(H.sk, 'InterpolationGrid') else H.load('skcurve._interpolate').InterpolationGrid):
        def __call__(self, curve):
            return g
    return Mine()


def warned(H, f):
    r, w = H.warns(f)
    return r, H.load('skcurve._interpolate').InterpolationWarning in w


@contract('C17', functions=CHECK)
def accepted_grid(H):
    """A strictly increasing grid is used as it is; a warning says that it does not cover the parameter range."""
    K = C(H)
    n = H.size('grid_size', 1)
    g = H.array('grid', n, kind='inc')
    H.assume(H.forall(n - 1, lambda i: H.at(g, i + 1) - H.at(g, i) > 1e-6))
    if not K.cv.param:
        increasing(H, K)
    r, w = warned(H, lambda: K.c.interpolate(spec(H, g), method='linear'))
    H.check('one-point-per-value', r.size == n)
    if K.cv.param:
        for i in H.each(n):
            H.check('parameter', H.exact(H.at(r.t, i), H.at(g, i)))
    H.check('warns-exactly-when-not-covering', H.Iff(w, H.Or(H.at(g, 0) > K.a, H.at(g, n - 1) < K.b)))


def increasing(H, K):
    m, c = K.m, K.c
    if not H.symbolic:
        H.assume((c.chordlen > 1e-6).all())
    else:
        H.assume(H.forall(m - 1, lambda i: H.at(c.cumarclen, i) < H.at(c.cumarclen, i + 1)))


@contract('C17', functions=CHECK)
def not_increasing(H):
    """Two values of the grid in the wrong order, or equal."""
    K = C(H)
    n = H.size('grid_size', 2)
    g = H.array('grid', n)
    i = H.int('i', 0, n - 2)
    if not H.symbolic and H.rng.random() < 0.7 and 'i' not in (H.given or {}):
        g0 = g.copy()
        g = H.np.sort(g) + H.np.arange(int(n)) * 1.0
        g[int(i) + 1] = g[int(i)] - H.rng.choice((0.0, 0.5, 3.0))
        H.rec['grid'] = g.tolist()
    H.assume(H.at(g, i + 1) <= H.at(g, i))
    if not K.cv.param:
        increasing(H, K)
    H.raises('rejected', ValueError, lambda: K.c.interpolate(spec(H, g), method='linear'))


@contract('C17', functions=CHECK)
def wrong_grid(H):
    K = C(H)
    if not K.cv.param:
        increasing(H, K)
    kind = H.choice('kind', ('matrix', 'row', 'cube', 'scalar', 'string', 'none', 'float', 'set'))
    n = H.size('grid_size', 2)
    g = H.array('grid', n, kind='inc')
    bad = {'matrix': lambda: H.array('grid2', (n, 2)), 'row': lambda: g[H.np.newaxis], 'cube': lambda: g[:, H.np.newaxis, H.np.newaxis],
           'scalar': lambda: H.np.array(1.5), 'string': lambda: 'abc', 'none': lambda: None, 'float': lambda: 2.5,
           'set': lambda: {1.0, 2.0}}[kind]()
    H.raises('rejected', ValueError, lambda: K.c.interpolate(bad, method='linear'))


@contract('C17', functions=CHECK + GRIDS)
def count_as_grid(H):
    """An integer grid is the uniform grid of that many values."""
    K = C(H)
    if not K.cv.param:
        increasing(H, K)
    n = H.size('count', 2)
    H.assume(K.b - K.a > 1e-6 * n)
    r, w = warned(H, lambda: K.c.interpolate(n, method='linear'))
    H.check('size', r.size == n)
    if K.cv.param:
        uniform(H, K, r.t, n)
    if H.symbolic:
        H.check('covers-the-range', not w)
    H.raises('too-few', ValueError, lambda: K.c.interpolate(H.int('few', -3, 1), method='linear'))
