import operator
from pydv.contract import contract
from common import isclose, any_slice, int_array, int_dtype

OPS = (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv),
       ('floordiv', operator.floordiv))
DT = ('float64', 'int64')


def nonzero(H, a, n):
    """Precondition of the divisions: no coordinate of the divisor is zero (nor tiny: keeps quotients finite)."""
    H.assume(H.forall(n, lambda i: H.abs(H.at(a, i)) > 1e-3))


def floor_ok(H, name, x, y):
    """Run time: x // y is computed by the same IEEE operation, so exact comparison is right for every operator."""
    return x // y if name == 'floordiv' else None


@contract('C06', functions=('Point._op', 'Point.__add__', 'Point.__sub__', 'Point.__mul__', 'Point.__truediv__', 'Point.__floordiv__'))
def point_and_point(H):
    name, op = H.choice('op', OPS)
    n = H.size('n', 1)
    da, db = H.choice('da', DT), H.choice('db', DT)
    A, B = H.array('a', n, da), H.array('b', n, db)
    if name in ('truediv', 'floordiv'):
        nonzero(H, B, n)
    p, q = H.sk.Point(A, dtype=da), H.sk.Point(B, dtype=db)
    r = op(p, q)
    H.check('is-point', isinstance(r, H.sk.Point))
    H.check('dimension', r.ndim == n)
    for i in H.each(n):
        H.check('coordinate', H.close(H.at(r.data, i), op(H.at(A, i), H.at(B, i))))
        H.check('operands', H.And(H.exact(H.at(p.data, i), H.at(A, i)), H.exact(H.at(q.data, i), H.at(B, i))))


@contract('C06', functions=('Point._op', 'Point.__add__', 'Point.__sub__', 'Point.__mul__', 'Point.__truediv__', 'Point.__floordiv__',
                            'Point.__radd__', 'Point.__rsub__', 'Point.__rmul__', 'Point.__rtruediv__', 'Point.__rfloordiv__'))
def point_and_number(H):
    name, op = H.choice('op', OPS)
    n = H.size('n', 1)
    da = H.choice('da', DT)
    A = H.array('a', n, da)
    x = H.real('x') if H.choice('xtype', ('float', 'int')) == 'float' else H.int('xi')
    right = H.choice('side', ('point-number', 'number-point')) == 'point-number'
    if name in ('truediv', 'floordiv'):
        if right:
            H.assume(H.abs(x) > 1e-3)
        else:
            nonzero(H, A, n)
    p = H.sk.Point(A, dtype=da)
    r = op(p, x) if right else op(x, p)
    H.check('is-point', isinstance(r, H.sk.Point))
    H.check('dimension', r.ndim == n)
    for i in H.each(n):
        y = H.at(A, i)
        H.check('coordinate', H.close(H.at(r.data, i), op(y, x) if right else op(x, y)))
        H.check('operand', H.exact(H.at(p.data, i), y))


@contract('C06', functions=('Point._op',))
def other_operands(H):
    n = H.size('n', 1)
    p = H.sk.Point(H.array('a', n))
    bad = H.choice('bad', ('text', None, [1.0]))
    name, op = H.choice('op', OPS)
    H.raises('right-operand', TypeError, lambda: op(p, bad))
    H.raises('left-operand', TypeError, lambda: op(bad, p))
    H.raises('matmul', TypeError, lambda: p @ 2.0)


@contract('C06', functions=('Point.__matmul__', 'Point.norm'))
def dot_and_norm(H):
    n = H.size('n', 1)
    A, B = H.array('a', n), H.array('b', n)
    p, q = H.sk.Point(A), H.sk.Point(B)
    ab = H.sum(n, lambda i: H.at(A, i) * H.at(B, i))
    aa = H.sum(n, lambda i: H.at(A, i) * H.at(A, i))
    sc = H.sum(n, lambda i: H.abs(H.at(A, i) * H.at(B, i))) if not H.symbolic else None
    H.check('dot', H.close(p @ q, ab, scale=sc))
    H.check('symmetric', H.close(q @ p, ab, scale=sc))
    H.check('norm', H.close(p.norm(), H.sqrt(aa)))
    H.check('norm-of-product', H.close(p.norm(), H.sqrt(H.num(p @ p))))


@contract('C06', functions=('Point.__matmul__',))
def dot_is_bilinear(H):
    n = H.size('n', 1)
    A, B, C = H.array('a', n), H.array('b', n), H.array('c', n)
    p, q, r = H.sk.Point(A), H.sk.Point(B), H.sk.Point(C)
    s = H.real('s', -8, 8)
    sc = (1 + H.abs(s)) * (1 + H.sum(n, lambda i: (H.abs(H.at(A, i)) + H.abs(H.at(B, i))) * H.abs(H.at(C, i)))) if not H.symbolic else None
    pr, qr = H.num(p @ r), H.num(q @ r)
    H.check('additive', H.close((p + q) @ r, pr + qr, scale=sc))
    H.check('homogeneous', H.close((p * s) @ r, s * pr, scale=sc))
    H.check('homogeneous-left', H.close((s * p) @ r, s * pr, scale=sc))
    H.check('additive-right', H.close(r @ (p + q), pr + qr, scale=sc))


@contract('C06', functions=('Point.__eq__', '_numeric.allequal', '_numeric.isequal'))
def equality(H):
    n, k = H.size('n', 0), H.size('k', 0)
    da, db = H.choice('da', DT), H.choice('db', DT)
    A = H.array('a', n, da)
    B = H.array('b', k, db, near=H.np.reshape(A, (1, n)) if not H.symbolic else None)
    p, q = H.sk.Point(A, dtype=da), H.sk.Point(B, dtype=db)
    r = p == q
    if H.decide(n == k):
        H.check('equal-iff-coordinates-are', H.Iff(r, H.forall(n, lambda i: isclose(H, H.at(A, i), H.at(B, i), da == db == 'int64'))))
    else:
        H.check('other-dimension-is-not-equal', H.Not(r))
    H.check('not-equal', H.Iff(p != q, H.Not(r)))
    H.check('equal-to-itself', p == p)


@contract('C06', functions=('Point.__copy__', 'Point.__deepcopy__', 'Point.__eq__', 'Point.__init__'))
def copy_is_equal(H):
    import copy
    n = H.size('n', 0)
    d = H.choice('d', DT)
    A = H.array('a', n, d)
    p = H.sk.Point(A, dtype=d)
    how = H.choice('how', ('copy', 'deepcopy', 'Point'))
    q = copy.copy(p) if how == 'copy' else copy.deepcopy(p) if how == 'deepcopy' else H.sk.Point(p)
    H.check('copy-is-a-point', isinstance(q, H.sk.Point))
    H.check('copy-equals', H.And(p == q, q == p))
    H.check('same-dimension', q.ndim == n)
    for i in H.each(n):
        H.check('same-coordinates', H.exact(H.at(q.data, i), H.at(A, i)))
    H.check('compared-with-other-object', H.And(p != 'text', H.Not(p == None)))    # noqa: E711


@contract('C06', functions=('Point.__getitem__', 'Point.__len__', 'Point.__bool__'))
def items(H):
    n = H.size('n', 0)
    A = H.array('a', n)
    p = H.sk.Point(A)
    H.check('length', H.And(H.len(p) == n, p.ndim == n, H.Iff(bool(p), n > 0)))
    sl, s, cnt, step = any_slice(H, n, steps=(None, -1, 2))
    r = p[sl]
    d = r.data if isinstance(r, H.sk.Point) else r
    if H.decide(cnt > 1):
        H.check('slice-is-a-point', isinstance(r, H.sk.Point))
    H.check('slice-length', H.len(d) == cnt)
    for i in H.each(cnt):
        H.check('slice', H.exact(H.at(d, i), H.at(A, s + i * step)))
    if H.decide(n > 0):
        k = H.int('k', -n, n - 1)
        H.check('item', H.exact(H.num(p[k]), H.at(A, H.If(k < 0, k + n, k))))


@contract('C06', functions=('Point._op', 'Point.__matmul__', 'Point.norm', '_numeric.as_inexact'))
def integer_points(H):
    """Points of integers: the results are those of the numbers, whatever the integer type."""
    d = int_dtype(H)
    n = H.size('n', 1)
    a, fa = int_array(H, 'a', n, d)
    b, fb = int_array(H, 'b', n, d)
    name, op = H.choice('op', OPS)
    if name in ('truediv', 'floordiv'):
        nonzero(H, fb, n)
    p, q = H.sk.Point(a, dtype=d), H.sk.Point(b, dtype=d)
    r, f = op(p, q), op(H.sk.Point(fa), H.sk.Point(fb))
    for i in H.each(n):
        H.check('coordinate', H.close(H.at(r.data, i), H.at(f.data, i)))
    H.check('product', H.close(p @ q, H.sk.Point(fa) @ H.sk.Point(fb), scale=1.0))
    H.check('norm', H.close(p.norm(), H.sk.Point(fa).norm()))
