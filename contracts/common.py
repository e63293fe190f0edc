"""Shared input builders and specification functions of the contracts."""


class CV(object):
    """A curve together with the data it was built from."""

    def __init__(self, H, curve, data, tdata, m, n, dtype):
        self.H, self.c, self.data, self.tdata, self.m, self.n, self.dtype = H, curve, data, tdata, m, n, dtype
        self.param = tdata is not None

    def P(self, i, j):
        return self.H.at(self.data, i, j)

    def T(self, i):
        return self.H.at(self.tdata, i)


def mkcurve(H, name='c', lo=0, hi=None, ndim=None, dtypes=('float64',), param=None, tkind='any', nlo=2, nhi=None, near=None,
            special=False, vary=(), factors=()):
    dtype = H.choice(name + '_dtype', dtypes) if len(dtypes) > 1 else dtypes[0]
    m = H.size(name + '_m', lo, hi)
    n = ndim if ndim is not None else H.size(name + '_n', nlo, nhi)
    data = H.array(name + '_data', (m, n), dtype, near=near, special=special, vary=vary, factors=factors)
    if param is None:
        param = H.choice(name + '_param', (False, True))
    tdata = H.array(name + '_t', m, 'float64', kind=tkind) if param else None
    c = H.sk.Curve(data, tdata=tdata)
    frames(H, name, c)
    return CV(H, c, data, tdata, m, n, dtype)


def check_curve(H, tag, c, m, n, P=None, T=None, dtype=None, exact=True, scale=None):
    """c is a curve of m points, n dimensions with the coordinates P(i, j), parameter T(i) (None: not parametric)."""
    H.check(tag + ':is-curve', isinstance(c, H.sk.Curve))
    H.check(tag + ':size', H.And(c.size == m, H.shape_is(c.data, m, n), H.len(c) == m, c.ndim == n))
    H.readonly(tag + ':readonly', c.data)
    if dtype is not None:
        H.check(tag + ':dtype', H.is_dtype(c, dtype))
    if P is not None:
        for i, j in H.each(m, n):
            x = H.at(c.data, i, j)
            y = P(i, j)
            H.check(tag + ':coordinates', H.exact(x, y) if exact else H.close(x, y, scale))
    if T is not None:
        H.check(tag + ':parametric', c.isparametric)
        H.check(tag + ':parameter-size', H.shape_is(c.t, m))
        H.readonly(tag + ':parameter-readonly', c.t)
        for i in H.each(m):
            H.check(tag + ':parameter', H.exact(H.at(c.t, i), T(i)))
    else:
        H.check(tag + ':not-parametric', not c.isparametric)


def unchanged(H, tag, cv):
    """The curve still holds the data it was built from."""
    check_curve(H, tag, cv.c, cv.m, cv.n, cv.P, cv.T if cv.param else None, cv.dtype)


def mkpoint(H, name, n, dtype='float64'):
    a = H.array(name, n, dtype)
    p = H.sk.Point(a, dtype=dtype)
    H.frame(name + '.data', p.data)
    return p, a


def frames(H, name, c):
    """The coordinates and the parameter of the curve must not change until the end of the contract."""
    H.frame(name + '.data', c.data)
    if c.isparametric:
        H.frame(name + '.t', c.t)


def mkseg(H, name, n):
    p, a = mkpoint(H, name + '_p1', n)
    q, b = mkpoint(H, name + '_p2', n)
    return H.sk.Segment(p, q), a, b


def norm_index(H, i, n):
    """Python's meaning of index i of a sequence of length n (i must be in range)."""
    return H.If(i < 0, i + n, i)


def py_slice(H, n, a, b, step):
    """(first position, number of positions) selected by slice(a, b, step) on a sequence of length n."""
    def clip(v, lo, hi):
        v = H.If(v < 0, v + n, v)
        return H.max(lo, H.min(v, hi))
    if step > 0:
        s = 0 if a is None else clip(a, 0, n)
        e = n if b is None else clip(b, 0, n)
        cnt = H.If(e > s, (e - s + step - 1) // step, 0)
    else:
        s = n - 1 if a is None else clip(a, -1, n - 1)
        e = -1 if b is None else clip(b, -1, n - 1)
        cnt = H.If(s > e, (s - e - step - 1) // (-step), 0)
    return s, cnt


def any_slice(H, n, steps=(None, 1, 2, -1, -2, 3), margin=3):
    """A slice argument with its meaning: (slice, first, count, step)."""
    step = H.choice('step', steps)
    a = H.int('start', -n - margin, n + margin) if H.choice('has_start', (True, False)) else None
    b = H.int('stop', -n - margin, n + margin) if H.choice('has_stop', (True, False)) else None
    s, cnt = py_slice(H, n, a, b, step or 1)
    return slice(a, b, step), s, cnt, step or 1


def isclose(H, x, y, ints=False):
    """The package's elementwise equality of the numbers x and y (numpy.isclose of x against the reference y)."""
    if ints:
        return x == y
    y = y * 1.0
    return H.abs(x - y) <= 1e-8 + 1e-5 * H.abs(y)


def clip_slice(H, n, a, b):
    """slice(a, b).indices(n)[:2]"""
    def clip(v):
        if H.decide(v < 0):
            v = v + n
            return v if H.decide(v > 0) else 0
        return v if H.decide(v < n) else n
    return (0 if a is None else clip(a)), (n if b is None else clip(b))


def exact_vec(H, name, n, far=False, like=None):
    """A vector; at run time its coordinates are small integers times a power of two (far: integers up to 2^30)."""
    def draw():
        r = H.rng
        if not hasattr(H, 'unit'):
            H.unit, H.offset = 2.0 ** r.choice((0, 0, 0, 3, 10, -5, -20, -30)), r.choice((0, 1, 1, 64, 2 ** 20))
        if like is not None and r.random() < 0.4:
            q = r.choice((-2, -1, -0.5, 0, 0.5, 1, 2))
            return [q * float(x) for x in like]
        p = r.choice((0.0, 0.2, 0.6))
        k = r.choice((1, 3, 9))
        return [(0.0 if r.random() < p else float(r.randint(-k, k))) * H.unit * (H.offset if far else 1) for _ in range(int(n))]
    return H.array(name, n, fill=draw)


def param(H, name, lo=-8, hi=8):
    """A real number; at run time a multiple of 1/2."""
    return H.real(name, None if H.symbolic else lo, None if H.symbolic else hi, step=0.5)


def affine_point(H, n, A, *terms):
    """The point A + sum t_k V_k."""
    def x(i):
        r = H.at(A, i)
        for t, V in terms:
            r = r + t * H.at(V, i)
        return r
    a = H.build((n,), x)
    return H.sk.Point(a), a


INTS = ('int64', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'uint64')
RANGE = dict(int8=(-128, 128), uint8=(0, 256), int16=(-2 ** 15, 2 ** 15), uint16=(0, 2 ** 16), int32=(-2 ** 31, 2 ** 31),
             uint32=(0, 2 ** 32), int64=(-2 ** 40, 2 ** 40), uint64=(0, 2 ** 40))


def int_dtype(H):
    """The arithmetic of narrow and unsigned integers, and products of 64-bit ones, overflow (run time)."""
    return H.choice('int_dtype', ('int64',) if H.symbolic else INTS)


def int_array(H, name, shape, d):
    """An array of integers of the type d, often small and often up to the limits of the type, and the same numbers as float64."""
    lo, hi = RANGE[d]
    if not H.symbolic and H.choice(name + '_small', (False, True)):
        lo, hi = max(lo, -5), 6
    a = H.array(name, shape, d, kind='any' if H.symbolic else ('int', lo, hi))
    return a, a.astype('float64')


def int_segments(H, name, n, d):
    """The segment between points of the type d and the one between the same points in float64."""
    a, fa = int_array(H, name + '_p1', n, d)
    b, fb = int_array(H, name + '_p2', n, d)
    P, S = H.sk.Point, H.sk.Segment
    return S(P(a, dtype=d), P(b, dtype=d)), S(P(fa), P(fb))


def int_curves(H, name, d, lo=0, hi=None, ndim=None):
    m = H.size(name + '_m', lo, hi)
    n = ndim if ndim is not None else H.size(name + '_n', 2)
    a, fa = int_array(H, name + '_data', (m, n), d)
    return H.sk.Curve(a, dtype=d), H.sk.Curve(fa), m, n


def power(H):
    """A power of two: multiplying by it is exact."""
    return 2.0 ** H.choice('power', (-120, -60, -40, -30, -20, -10, 10, 20, 40, 60, 120))
