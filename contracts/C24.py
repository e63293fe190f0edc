from pydv.contract import contract
from common import check_curve

def lib(H):
    return H.load('skcurve.curves')


def span(H, lo=2):
    """The uniform parameter grid: (t_start, t_stop, count, value at i)."""
    a, b = H.real('start', -20, 20), H.real('stop', -20, 20)
    n = H.size('count', lo)
    return a, b, n, lambda i: a + (b - a) * i / (n - 1)


def sc(H, *xs):
    if H.symbolic:
        return None
    r = 1.0
    for x in xs:
        r *= 1 + abs(x)
    return 100 * r


def grid(H, c, a, b, n, T, ndim):
    check_curve(H, 'curve', c, n, ndim, None, lambda i: H.at(c.t, i), dtype='float64')
    s = sc(H, a, b)
    for i in H.each(n):
        H.check('parameter-uniform', H.close(H.at(c.t, i), T(i), scale=s))
    H.check('parameter-start', H.close(H.at(c.t, 0), a, scale=s))
    H.check('parameter-stop', H.close(H.at(c.t, n - 1), b, scale=s))


def trig(H, t):
    """cos and sin of t with the Pythagorean identity."""
    c, s = H.cos(t), H.sin(t)
    H.have('pythagoras', H.close(c * c + s * s, 1.0, scale=1))
    return c, s


@contract('C24', functions=('curves.arc',))
def arc(H):
    a, b, n, T = span(H)
    r, c = H.real('r', -9, 9), H.real('c', -9, 9)
    k = lib(H).arc(t_start=a, t_stop=b, p_count=n, r=r, c=c)
    grid(H, k, a, b, n, T, 2)
    for i in H.each(n):
        co, si = trig(H, H.at(k.t, i))
        x, y = H.at(k.data, i, 0), H.at(k.data, i, 1)
        H.check('x', H.close(x, r * co + c, scale=sc(H, r, c)))
        H.check('y', H.close(y, r * si + c, scale=sc(H, r, c)))
        H.check('on-circle', H.close((x - c) * (x - c) + (y - c) * (y - c), r * r, scale=sc(H, r, c, r, c)))


@contract('C24', functions=('curves.lemniscate_of_bernoulli',))
def lemniscate(H):
    a, b, n, T = span(H)
    c = H.real('c', -9, 9)
    k = lib(H).lemniscate_of_bernoulli(t_start=a, t_stop=b, p_count=n, c=c)
    grid(H, k, a, b, n, T, 2)
    for i in H.each(n):
        co, si = trig(H, H.at(k.t, i))
        x, y = H.at(k.data, i, 0), H.at(k.data, i, 1)
        d = 1 + si * si
        q = H.sqrt(2)
        H.have('sqrt2', H.close(q * q, 2.0, scale=1))
        H.have('x', H.close(x * d, c * q * co, scale=sc(H, c)))
        H.have('y', H.close(y * d, c * q * co * si, scale=sc(H, c)))
        H.have('y-is-x-sin', H.close(y, x * si, scale=sc(H, c)))
        # (x^2 + y^2)^2 = 2 c^2 (x^2 - y^2)
        X = x * x
        H.have('square-of-x', H.close(X * d * d, 2 * c * c * co * co, scale=sc(H, c, c)))
        H.have('cos2', H.close(co * co, 1 - si * si, scale=1))
        H.have('sum-of-squares', H.close(x * x + y * y, X * d, scale=sc(H, c, c)))
        H.have('difference-of-squares', H.close(x * x - y * y, X * co * co, scale=sc(H, c, c)))
        H.have('scaled', H.close(X * (X * d * d), X * (2 * c * c * co * co), scale=sc(H, c, c, c, c)))
        H.check('on-lemniscate', H.close((X * d) * (X * d), 2 * c * c * (X * co * co), scale=sc(H, c, c, c, c)))


@contract('C24', functions=('curves.archimedean_spiral',))
def archimedean(H):
    a, b, n, T = span(H)
    p, q = H.real('a', -9, 9), H.real('b', -9, 9)
    k = lib(H).archimedean_spiral(t_start=a, t_stop=b, p_count=n, a=p, b=q)
    grid(H, k, a, b, n, T, 2)
    s = sc(H, p, q, a, b)
    for i in H.each(n):
        t = H.at(k.t, i)
        co, si = trig(H, t)
        x, y = H.at(k.data, i, 0), H.at(k.data, i, 1)
        r = p + q * t
        H.check('x', H.close(x, r * co, scale=s))
        H.check('y', H.close(y, r * si, scale=s))
        H.check('radius', H.close(x * x + y * y, r * r, scale=sc(H, p, q, a, b, p, q, a, b)))


@contract('C24', functions=('curves.euler_spiral',))
def euler(H):
    a, b, n, T = span(H)
    k = lib(H).euler_spiral(t_start=a, t_stop=b, p_count=n)
    grid(H, k, a, b, n, T, 2)
    for i in H.each(n):
        S, C = H.fresnel(H.at(k.t, i))
        H.check('x', H.close(H.at(k.data, i, 0), C, scale=1))
        H.check('y', H.close(H.at(k.data, i, 1), S, scale=1))


@contract('C24', functions=('curves.lissajous',))
def lissajous(H):
    a, b, n, T = span(H)
    A, B, p, q, d = [H.real(x, -9, 9) for x in ('A', 'B', 'a', 'b', 'd')]
    k = lib(H).lissajous(t_start=a, t_stop=b, p_count=n, a_ampl=A, b_ampl=B, a=p, b=q, d=d)
    grid(H, k, a, b, n, T, 2)
    s = sc(H, A, B, p, q, d)
    for i in H.each(n):
        t = H.at(k.t, i)
        H.check('x', H.close(H.at(k.data, i, 0), A * H.sin(p * t + d), scale=s))
        H.check('y', H.close(H.at(k.data, i, 1), B * H.sin(q * t), scale=s))


@contract('C24', functions=('curves.helix',))
def helix(H):
    a, b, n, T = span(H)
    p, q = H.real('a', -9, 9), H.real('b', -9, 9)
    k = lib(H).helix(t_start=a, t_stop=b, p_count=n, a=p, b=q)
    grid(H, k, a, b, n, T, 3)
    s = sc(H, p, q, a, b)
    for i in H.each(n):
        t = H.at(k.t, i)
        co, si = trig(H, t)
        x, y, z = [H.at(k.data, i, j) for j in range(3)]
        H.check('x', H.close(x, p * si, scale=s))
        H.check('y', H.close(y, p * co, scale=s))
        H.check('z', H.close(z, q * t, scale=s))
        H.check('on-cylinder', H.close(x * x + y * y, p * p, scale=sc(H, p, p)))


@contract('C24', functions=('curves.irregular_helix',))
def irregular_helix(H):
    a, b, n, T = span(H)
    u, v = H.real('z_start', -9, 9), H.real('z_stop', -9, 9)
    k = lib(H).irregular_helix(t_start=a, t_stop=b, z_start=u, z_stop=v, p_count=n)
    grid(H, k, a, b, n, T, 3)
    s = sc(H, u, u, v, v)
    for i in H.each(n):
        t = H.at(k.t, i)
        co, si = trig(H, t)
        x, y, z = [H.at(k.data, i, j) for j in range(3)]
        r = 1 + z * z
        H.check('z', H.close(z, u + (v - u) * i / (n - 1), scale=s))
        H.check('x', H.close(x, r * si, scale=s))
        H.check('y', H.close(y, r * co, scale=s))
        H.check('radius', H.close(x * x + y * y, r * r, scale=sc(H, u, u, v, v, u, u, v, v)))


@contract('C24', functions=('curves.arc', 'curves.lemniscate_of_bernoulli', 'curves.archimedean_spiral', 'curves.euler_spiral',
                            'curves.lissajous', 'curves.helix', 'curves.irregular_helix'))
def defaults(H):
    """The factories called without arguments: range, number of points and dimension."""
    cu, pi = lib(H), H.np.pi
    spec = [(cu.arc, 0, 2 * pi, 49, 2), (cu.lemniscate_of_bernoulli, 0, 2 * pi, 101, 2), (cu.archimedean_spiral, 0, 5 * pi, 200, 2),
            (cu.euler_spiral, -1.5 * pi, 1.5 * pi, 1000, 2), (cu.lissajous, 0, 2 * pi, 101, 2), (cu.helix, -3 * pi, 3 * pi, 100, 3),
            (cu.irregular_helix, -4 * pi, 4 * pi, 100, 3)]
    f, a, b, n, d = H.choice('factory', spec)
    c = f()
    check_curve(H, 'curve', c, n, d, None, lambda i: H.at(c.t, i), dtype='float64')
    for i in H.each(n):
        H.check('parameter-uniform', H.abs(H.at(c.t, i) - (a + (b - a) * i / (n - 1))) <= 1e-9)


@contract('C24', functions=('curves.arc', 'curves.lemniscate_of_bernoulli', 'curves.archimedean_spiral', 'curves.euler_spiral',
                            'curves.lissajous', 'curves.helix', 'curves.irregular_helix'))
def default_shapes(H):
    """A factory called with the range only draws the curve of its documented shape parameters."""
    cu = lib(H)
    spec = [(cu.arc, dict(r=1.0, c=0.0)), (cu.lemniscate_of_bernoulli, dict(c=1.0)), (cu.archimedean_spiral, dict(a=1.5, b=-2.4)),
            (cu.lissajous, dict(a_ampl=1.0, b_ampl=1.0, a=3.0, b=2.0, d=0.0)), (cu.helix, dict(a=1.0, b=1.0)),
            (cu.irregular_helix, dict(z_start=-2.0, z_stop=2.0))]
    f, shape = H.choice('factory', spec)
    a, b, n = H.real('start', -20, 20), H.real('stop', -20, 20), H.size('count', 2)
    c, w = f(t_start=a, t_stop=b, p_count=n), f(t_start=a, t_stop=b, p_count=n, **shape)
    check_curve(H, 'curve', c, n, w.ndim, lambda i, j: H.at(w.data, i, j), lambda i: H.at(w.t, i), dtype='float64')

@contract('C24', functions=('curves.arc', 'curves.lemniscate_of_bernoulli', 'curves.archimedean_spiral', 'curves.euler_spiral',
                            'curves.lissajous', 'curves.helix', 'curves.irregular_helix'))
def few_points(H):
    """No point at all or only the first one."""
    cu = lib(H)
    f, d = H.choice('factory', [(cu.arc, 2), (cu.lemniscate_of_bernoulli, 2), (cu.archimedean_spiral, 2), (cu.euler_spiral, 2),
                                (cu.lissajous, 2), (cu.helix, 3), (cu.irregular_helix, 3)])
    n = H.choice('count', (0, 1))
    a, b = H.real('start', -20, 20), H.real('stop', -20, 20)
    c = f(t_start=a, t_stop=b, p_count=n)
    H.check('size', c.size == n)
    H.check('dimension', H.Implies(n > 0, H.And(c.ndim == d, H.shape_is(c.data, n, d))))
    H.check('parametric', c.isparametric)
    H.check('parameter-size', H.shape_is(c.t, n))
    if n:
        H.check('start', H.close(H.at(c.t, 0), a, scale=sc(H, a)))
