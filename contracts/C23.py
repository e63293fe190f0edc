from pydv.contract import contract
from common import mkpoint, mkcurve, int_array, int_dtype

NAMES = ('braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean', 'jensenshannon',
         'mahalanobis', 'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski')
F = ('Point.distance', '_distance.get_metric')


def scipy(H):
    return H.load('scipy.spatial.distance')


def params(H, name, n):
    """The extra arguments some metrics take (or need)."""
    if name == 'minkowski':
        return [{}, {'p': 1}, {'p': 3}][H.choice('kw', range(3))]
    if name == 'wminkowski':
        return {'p': 2, 'w': H.array('w', n, kind='pos')}
    if name == 'seuclidean':
        return {'V': H.array('V', n, kind='pos')}
    if name == 'mahalanobis':
        return {'VI': H.np.eye(n)}
    if name in ('euclidean', 'sqeuclidean', 'cityblock', 'chebyshev', 'cosine', 'canberra', 'braycurtis'):
        return {} if H.choice('kw', range(2)) == 0 else {'w': H.array('w', n, kind='pos')}
    if name == 'jensenshannon':
        return [{}, {'base': 2.0}][H.choice('kw', range(2))]
    return {}


@contract('C23', functions=F)
def named_metric(H):
    """The value of the scipy function of that name on the two coordinate arrays, in order."""
    n = H.size('n', 2)
    name = H.choice('metric', NAMES)
    p, a = mkpoint(H, 'p', n)
    q, b = mkpoint(H, 'q', n)
    kw = params(H, name, n)
    if name == 'jensenshannon' and not H.symbolic:
        H.assume((a > 0).all() and (b > 0).all())
    want = getattr(scipy(H), name)(a, b, **kw)
    if not (name == 'euclidean' and not kw and H.choice('default', (False, True))):
        H.check('value', H.same_value(p.distance(q, name, **kw), want))
        H.check('keyword', H.same_value(p.distance(q, metric=name, **kw), want))
        g = H.load('skcurve._distance').get_metric(name, **kw)
        H.check('get_metric', H.same_value(g(a, b), want))
    else:
        H.check('default', H.same_value(p.distance(q), want))


@contract('C23', functions=F)
def listing(H):
    names = H.load('skcurve._distance').known_metrics()
    H.check('names', sorted(names) == sorted(NAMES))
    names.append('no such metric')
    names.remove('euclidean')
    H.check('listing-is-a-copy', sorted(H.load('skcurve._distance').known_metrics()) == sorted(NAMES))


@contract('C23', functions=F)
def euclidean_is_norm(H):
    n = H.size('n', 1)
    p, a = mkpoint(H, 'p', n)
    q, b = mkpoint(H, 'q', n)
    d = p.distance(q)
    H.check('root-of-squares', H.close(d, H.sqrt(H.sum(n, lambda i: (H.at(a, i) - H.at(b, i)) * (H.at(a, i) - H.at(b, i))))))
    H.check('norm-of-difference', H.close(d, (p - q).norm()))
    H.check('norm-of-difference-other-order', H.close(d, (q - p).norm()))


@contract('C23', functions=F)
def curve_points(H):
    """A point of a curve in either place."""
    cv = mkcurve(H, lo=1, param=False)
    q, b = mkpoint(H, 'q', cv.n)
    i = H.int('i', 0, cv.m - 1)
    cp = cv.c[i]
    u, v = (cp, q) if H.choice('order', (0, 1)) == 0 else (q, cp)
    for j in H.each(cv.n):
        H.check('coordinates', H.exact(H.at(cp.data, j), cv.P(i, j)))
    H.check('distance', H.close(u.distance(v), H.sqrt(H.sum(cv.n, lambda j: (cv.P(i, j) - H.at(b, j)) * (cv.P(i, j) - H.at(b, j))))))


@contract('C23', functions=F)
def callable_metric(H):
    """Gets the two coordinate arrays in order; its value is returned."""
    n = H.size('n', 1)
    p, a = mkpoint(H, 'p', n)
    q, b = mkpoint(H, 'q', n)
    log, out = [], object()

    def f(x, y):
        log.append((x, y))
        return out
    kind = H.choice('kind', ('function', 'lambda', 'object'))
    if kind == 'lambda':
        m = lambda *xs: f(*xs)
    elif kind == 'object':
        class Metric(object):
            def __call__(self, u, v):
                return f(u, v)
        m = Metric()
    else:
        m = f
    H.check('returned', p.distance(q, m) is out)
    H.check('called-once', len(log) == 1)
    x, y = log[0]
    H.check('sizes', H.And(H.shape_is(x, n), H.shape_is(y, n)))
    for i in H.each(n):
        H.check('first', H.exact(H.at(x, i), H.at(a, i)))
        H.check('second', H.exact(H.at(y, i), H.at(b, i)))


@contract('C23', functions=F)
def rejected(H):
    n = H.size('n', 1)
    p, a = mkpoint(H, 'p', n)
    q, b = mkpoint(H, 'q', n)
    bad = H.choice('name', ('', 'Euclidean', 'euclidean ', 'l2', 'manhattan', 'data', '__name__', 'pdist', 'hamming', 'dice'))
    kw = H.choice('kw', ({}, {'w': 1}))
    H.raises('unknown-name', NameError, lambda: p.distance(q, bad, **kw))
    H.raises('unknown-name-get', NameError, lambda: H.load('skcurve._distance').get_metric(bad, **kw))
    wrong = H.choice('wrong', (None, 1, 2.5, ('euclidean',), ['euclidean'], {}, True, b'euclidean'))
    H.raises('not-callable', TypeError, lambda: p.distance(q, wrong))


@contract('C23', functions=F)
def metric_axioms(H):
    n = H.size('n', 1)
    (p, a), (q, b) = mkpoint(H, 'p', n), mkpoint(H, 'q', n)
    name = H.choice('metric', ('euclidean', 'cityblock', 'chebyshev', 'sqeuclidean'))
    D = lambda x, y: H.num(x.distance(y, name))
    if name == 'cityblock':
        H.sum_eq('swapped-terms', n, lambda i: H.abs(H.at(a, i) - H.at(b, i)), lambda i: H.abs(H.at(b, i) - H.at(a, i)))
    H.check('symmetric', H.close(D(p, q), D(q, p)))
    H.check('non-negative', D(p, q) >= 0)
    H.check('zero-for-equal', H.close(D(p, p), 0.0))
    z = D(p, q)
    H.sq_zero(n, lambda i: H.at(a, i) - H.at(b, i))
    if H.symbolic and name == 'cityblock':
        H.pos_zero(n, lambda i: H.abs(H.at(a, i) - H.at(b, i)))
    if H.decide(z <= 0):
        for i in H.each(n):
            H.check('zero-only-for-equal', H.abs(H.at(a, i) - H.at(b, i)) <= (0 if H.symbolic else 1e-150))


@contract('C23', functions=F)
def triangle_inequality(H):
    n = H.size('n', 1)
    (p, a), (q, b), (r, c) = mkpoint(H, 'p', n), mkpoint(H, 'q', n), mkpoint(H, 'r', n)
    name = H.choice('metric', ('euclidean', 'cityblock', 'chebyshev'))
    D = lambda x, y: H.num(x.distance(y, name))
    x, y, z = D(p, q), D(q, r), D(p, r)
    if name == 'euclidean':
        f, g = (lambda i: H.at(a, i) - H.at(b, i)), (lambda i: H.at(b, i) - H.at(c, i))
        H.cauchy(n, f, g)
        fg = H.sum(n, lambda i: f(i) * g(i))
        H.have('square', H.close(z * z, x * x + 2 * fg + y * y, scale=None if H.symbolic else (1 + H.mag) ** 2))
        H.have('cauchy', fg <= x * y + (0 if H.symbolic else 1e-9 * (1 + H.mag) ** 2))
    elif name == 'cityblock' and H.symbolic:
        f, g = (lambda i: H.at(a, i) - H.at(b, i)), (lambda i: H.at(b, i) - H.at(c, i))
        H.sum_le('terms', n, lambda i: H.abs(H.at(a, i) - H.at(c, i)), lambda i: H.abs(f(i)) + H.abs(g(i)))
    H.check('triangle', z <= x + y + (0 if H.symbolic else 1e-9 * (1 + H.mag)))


@contract('C23', functions=F, deductive=False, bound='coordinates of moderate size, p in {1, 1.5, 2, 3}')
def minkowski_axioms(H):
    n = H.size('n', 1, 6)
    (p, a), (q, b), (r, c) = mkpoint(H, 'p', n), mkpoint(H, 'q', n), mkpoint(H, 'r', n)
    k = H.choice('order', (1, 1.5, 2, 3))
    D = lambda x, y: H.num(x.distance(y, 'minkowski', p=k))
    H.check('value', H.close(D(p, q), sum(abs(float(u) - float(v)) ** k for u, v in zip(a, b)) ** (1.0 / k), scale=1 + H.mag))
    H.check('symmetric', H.close(D(p, q), D(q, p)))
    H.check('non-negative', D(p, q) >= 0)
    H.check('zero-for-equal', H.close(D(p, p), 0.0))
    H.check('triangle', D(p, r) <= D(p, q) + D(q, r) + 1e-9 * (1 + H.mag))


@contract('C23', functions=F + ('_numeric.as_inexact',))
def integer_points(H):
    """The metrics of points of integers are those of the same numbers as floating point ones."""
    d = int_dtype(H)
    n = H.size('n', 2)
    a, fa = int_array(H, 'a', n, d)
    b, fb = int_array(H, 'b', n, d)
    name = H.choice('metric', ('euclidean', 'sqeuclidean', 'cityblock', 'chebyshev', 'canberra', 'braycurtis', 'minkowski'))
    p, q = H.sk.Point(a, dtype=d), H.sk.Point(b, dtype=d)
    want = getattr(scipy(H), name)(fa, fb)
    H.check('value', H.same_value(p.distance(q, name), want))
