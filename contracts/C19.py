from pydv.contract import contract
from common import mkcurve, unchanged, power

F = ('_smooth.smooth', '_smooth.savgol_filter', '_smooth.window_filter', '_smooth.get_smooth_method', 'Curve.smooth')
MODES = ('reflect', 'mirror', 'nearest', 'wrap')
WINDOWS = ('hann', 'hamming', 'blackman', 'boxcar', 'triang')


class Smoother(object):
    """One method with arbitrary parameters; apply(curve) smooths."""

    def __init__(self, H, m, own=None, only=None, order=4):
        self.H = H
        self.w = None
        kind = only or H.choice('method', ('savgol', 'window', 'callable'))
        self.kind = kind
        if kind == 'savgol':
            half = H.int('half', 1, None if H.symbolic else order)
            size = 2 * half + 1
            H.assume(size <= m)
            order = H.int('order', 0, None if H.symbolic else order)
            H.assume(order < size)
            self.size, self.order = size, order
            self.mode = H.choice('mode', ('default', 'interp', 'mirror', 'nearest', 'wrap'))
            kw = {} if self.mode == 'default' else {'mode': self.mode}
            self.args = dict(method='savgol', window_length=size, polyorder=order, **kw)
            return
        size = H.size('window', 3 if kind == 'window' else 1, None if H.symbolic else 9)
        H.assume(size <= m)
        self.size = size
        mode = H.choice('mode', ('default',) + MODES)
        kw = {} if mode == 'default' else {'mode': mode}
        if kind == 'window':
            wt = H.choice('type', ('default',) + WINDOWS)
            if wt != 'default':
                kw['window_type'] = wt
            if H.symbolic:
                # a window with a non-zero sum
                W = H.load('scipy.signal.windows').get_window('hann' if wt == 'default' else wt, size, fftbins=False)
                H.assume(H.num(W.sum()) > 0)
        else:
            self.w = H.array('weights', size, kind='nonneg')
            H.assume(H.num(self.w.sum()) > (0 if H.symbolic else 1e-3))
            kw['window_type'] = (lambda n: self.w)
        self.args = dict(method='window', window_size=size, **kw)

    def apply(self, c, **kw):
        return c.smooth(**dict(self.args, **kw))


def sc(H, k=1.0):
    return None if H.symbolic else 50 * k * (1 + H.mag)


@contract('C19', functions=F)
def shape_and_dtype(H):
    cv = mkcurve(H, lo=1, dtypes=('float64', 'float32', 'int64', 'int32'))
    S = Smoother(H, cv.m)
    s = S.apply(cv.c)
    H.check('is-curve', isinstance(s, H.sk.Curve))
    H.check('size', H.And(s.size == cv.m, s.ndim == cv.n, H.shape_is(s.data, cv.m, cv.n)))
    H.check('float64', H.is_dtype(s, 'float64') and H.is_dtype(s.data, 'float64'))
    unchanged(H, 'source', cv)


@contract('C19', functions=F)
def dtype_independent(H):
    """Integer coordinates are smoothed as the equal float ones."""
    cv = mkcurve(H, lo=1, dtypes=('int64', 'int32'), param=False)
    S = Smoother(H, cv.m)
    d = H.sk.Curve(cv.data.astype('float64'))
    s, r = S.apply(cv.c), S.apply(d)
    for i, j in H.each(cv.m, cv.n):
        H.check('same', H.close(H.at(s.data, i, j), H.at(r.data, i, j), scale=sc(H)))


@contract('C19', functions=F)
def linear(H):
    cv = mkcurve(H, lo=1, param=False)
    Q = H.array('other', (cv.m, cv.n))
    a, b = H.real('a', -8, 8), H.real('b', -8, 8)
    S = Smoother(H, cv.m)
    p, q, r = S.apply(cv.c), S.apply(H.sk.Curve(Q)), S.apply(H.sk.Curve(cv.data * a + Q * b))
    for i, j in H.each(cv.m, cv.n):
        H.check('combination', H.close(H.at(r.data, i, j), a * H.at(p.data, i, j) + b * H.at(q.data, i, j), scale=sc(H, 100)))


@contract('C19', functions=F)
def coordinates_are_independent(H):
    """Column j of the result depends on column j only, in the same way for every column: a curve with other columns,
    another number of columns and column j at another place has the same smoothed column."""
    cv = mkcurve(H, lo=1, param=False)
    n2 = H.size('n2', 2)
    Q = H.array('other', (cv.m, n2))
    j = H.int('j', 0, cv.n - 1)
    k = H.int('k', 0, n2 - 1)
    S = Smoother(H, cv.m)
    other = H.build((cv.m, n2), lambda i, c: H.If(c == k, cv.P(i, j), H.at(Q, i, c)))
    p, q = S.apply(cv.c), S.apply(H.sk.Curve(other))
    for i in H.each(cv.m):
        H.check('same-column', H.close(H.at(q.data, i, k), H.at(p.data, i, j), scale=sc(H)))


@contract('C19', functions=F)
def translation(H):
    cv = mkcurve(H, lo=1, param=False)
    v = H.array('v', cv.n)
    S = Smoother(H, cv.m)
    p, q = S.apply(cv.c), S.apply(H.sk.Curve(cv.data + v))
    for i, j in H.each(cv.m, cv.n):
        weights(H, S, i)
        H.check('shifted', H.close(H.at(q.data, i, j), H.at(p.data, i, j) + H.at(v, j), scale=sc(H)))


def weights(H, S, i):
    """The normalised weights of the last convolution sum to one."""
    if H.symbolic and S.kind != 'savgol':
        w, L, R = H.conv()
        H.have('weights-sum-to-one', H.close(H.sum(L, w), 1.0))


@contract('C19', functions=F)
def constants(H):
    m, n = H.size('m', 1), H.size('n', 2)
    c = H.array('c', n)
    cv = H.sk.Curve(H.np.zeros((m, n)) + c)
    S = Smoother(H, m)
    s = S.apply(cv)
    for i, j in H.each(m, n):
        weights(H, S, i)
        H.check('unchanged', H.close(H.at(s.data, i, j), H.at(c, j), scale=sc(H)))


@contract('C19', functions=F)
def range_is_kept(H):
    """A window without negative values: every coordinate stays in the range of the original."""
    cv = mkcurve(H, lo=1, param=False)
    S = Smoother(H, cv.m, only='callable')
    j = H.int('j', 0, cv.n - 1)
    lo, hi = H.real('lo', -1e4, 1e4), H.real('hi', -1e4, 1e4)
    if H.symbolic:
        H.assume(H.forall(cv.m, lambda i: H.And(lo <= cv.P(i, j), cv.P(i, j) <= hi)))
    else:
        lo, hi = min(cv.data[:, j]), max(cv.data[:, j])
    s = S.apply(cv.c)
    e = 0 if H.symbolic else 1e-9 * (1 + H.mag)
    for i in H.each(cv.m):
        weights(H, S, i)
        if H.symbolic:
            w, L, R = H.conv()
            H.sum_le('above', L, lambda k: lo * w(k), lambda k: w(k) * cv.P(R(i, k), j))
            H.sum_le('below', L, lambda k: w(k) * cv.P(R(i, k), j), lambda k: hi * w(k))
        H.check('lower', H.at(s.data, i, j) >= lo - e)
        H.check('upper', H.at(s.data, i, j) <= hi + e)


@contract('C19', functions=F)
def window_scale(H):
    cv = mkcurve(H, lo=1, param=False)
    S = Smoother(H, cv.m, only='callable')
    f = H.real('factor', 0.1, 100)
    s, r = S.apply(cv.c), S.apply(cv.c, window_type=lambda n: S.w * f)
    for i, j in H.each(cv.m, cv.n):
        H.check('same', H.close(H.at(r.data, i, j), H.at(s.data, i, j), scale=sc(H)))


@contract('C19', functions=F)
def savgol_reproduces_polynomials(H):
    """Polynomials of a degree up to the order: the coordinates a + b i^d with d <= order (by linearity every polynomial)."""
    m, n = H.size('m', 3), H.size('n', 2)
    deg = H.choice('degree', range(8))
    A, B = [H.array(x, n) for x in 'ab']
    x = H.np.arange(m)[:, H.np.newaxis] * 1.0
    if not H.symbolic:
        x = x / m
    data = A + x * 0.0
    p = 1.0
    for _ in range(deg):
        p = p * x
    data = data + B * p
    S = Smoother(H, m, only='savgol', order=7)
    H.assume(S.order >= deg)
    H.assume(S.mode in ('default', 'interp'))
    s = S.apply(H.sk.Curve(data))
    for i, j in H.each(m, n):
        want = H.at(A, j)
        p = 1.0
        for _ in range(deg):
            p = p * (i if H.symbolic else i / float(m))
        H.check('reproduced', H.close(H.at(s.data, i, j), want + H.at(B, j) * p, scale=sc(H)))


@contract('C19', functions=F)
def window_receives_size(H):
    """A callable window is called with the size; the window the caller owns is not changed."""
    cv = mkcurve(H, lo=1, param=False)
    L = H.size('window', 1)
    H.assume(L <= cv.m)
    w = H.array('weights', L, kind='pos')
    log = []

    def win(n):
        log.append(n)
        return w
    s = cv.c.smooth('window', window_size=L, window_type=win)
    H.check('called', len(log) == 1)
    H.check('with-the-size', log[0] == L)
    H.check('size', H.And(s.size == cv.m, s.ndim == cv.n))


@contract('C19', functions=F)
def window_function_fails(H):
    cv = mkcurve(H, lo=1, param=False)

    def win(n):
        raise KeyError('x')
    H.raises('ValueError', ValueError, lambda: cv.c.smooth('window', window_size=3, window_type=win))


@contract('C19', functions=F, deductive=False, bound='scales 2^-120 to 2^120')
def any_scale(H):
    """Very small and very large curves are smoothed like the others."""
    cv, s = mkcurve(H, lo=1, param=False), power(H)
    S = Smoother(H, cv.m)
    a, b = S.apply(cv.c).data, S.apply(H.sk.Curve(cv.data * s)).data / s
    H.check('scaled', a.shape == b.shape and bool((H.np.abs(a - b) <= 1e-9 * sc(H)).all()))
