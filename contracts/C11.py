from pydv.contract import contract
from common import mkseg, frames, int_curves, int_dtype

INT = ('Curve.intersect', '_intersect.intersect', '_intersect.IntersectionMethodBase.__call__',
       '_intersect.IntersectionMethodBase._curves_intersect_indices', '_intersect.ExactIntersectionMethod._intersect_curves',
       '_intersect.ExactIntersectionMethod._find_segments_bbox_intersection', 'Curve.segments', 'CurveSegment.__init__')


def module(H):
    return H.load('skcurve._intersect')


def curve(H, name, n, lo=0):
    """A curve; at run time its points are often on a small grid, so that segments touch, cross and overlap."""
    m = H.size(name + '_m', lo, None if H.symbolic else 8)

    def draw():
        r = H.rng
        if r.random() < 0.3:
            return [[r.gauss(0, 3) for _ in range(int(n))] for _ in range(int(m))]
        k, f, o = r.choice((1, 2, 4)), r.choice((1.0, 1.0, 0.5, 1e-3, 1024.0)), r.choice((0, 0, 1, 1000))
        f, o = getattr(H, 'fo', (f, o))
        H.fo = f, o
        e = r.choice((0, 0, 0, 1e-9, 4e-6, 1.5e-5)) * k * f
        return [[r.randint(-k, k) * f + o + e * r.choice((-1, 0, 0, 1)) for _ in range(int(n))] for _ in range(int(m))]
    data = H.array(name, (m, n), fill=draw)
    if not H.symbolic:
        H.assume(m == 0 or data.shape == (m, n))
    c = H.sk.Curve(data)
    frames(H, name, c)
    return c, m


def twin(H, c, m):
    """At run time: another curve of the same points (in the symbolic world the second curve is any curve)."""
    if not H.symbolic and (not H.given or 'twin' in H.given) and H.choice('twin', (False, False, False, False, True)):
        return H.sk.Curve(H.np.array(c.data)), m


def pair_contract(H, n):
    """The exact intersection of two segments by its contract (C10): none, a point within the tolerances of both, or an
    overlap that is a part of both; a function of the ends."""
    T = module(H).IntersectionType

    def spec(self, s1, s2):
        P = [s1.p1, s1.p2, s2.p1, s2.p2]
        if not H.decide(H.opaque('hit', 'bool', P)):
            return module(H).NOT_INTERSECTED
        a, b, c, d = [(lambda i, p=p: H.at(p.data, i)) for p in P]
        if H.decide(H.opaque('exact', 'bool', P)):
            k, l = H.opaque('k', 'real', P), H.opaque('l', 'real', P)
            x = H.opaque('x', 'vector', P, n)
            H.assume(H.And(k >= -1e-8, k <= 1 + 1.001e-5, l >= -1e-8, l <= 1 + 1.001e-5))
            y = lambda i: c(i) + l * (d(i) - c(i))
            H.assume(H.forall(n, lambda i: H.at(x, i) == a(i) + k * (b(i) - a(i))))
            H.assume(H.forall(n, lambda i: H.abs(H.at(x, i) - y(i)) <= 1e-8 + 1e-5 * H.abs(y(i))))
            return T.EXACT(H.sk.Point(x))
        x, y = H.opaque('x', 'vector', P, n), H.opaque('y', 'vector', P, n)
        for p, q in ((a, b), (c, d)):
            H.assume(H.forall(n, lambda i: H.And(H.If(p(i) < q(i), p(i), q(i)) <= H.at(x, i), H.at(x, i) <= H.If(p(i) < q(i), q(i), p(i)))))
        return T.OVERLAP(H.sk.Segment(H.sk.Point(x), H.sk.Point(y)))
    H.callee(module(H).ExactIntersectionMethod, '_intersect_segments', 'C10', spec)


def same_info(H, tag, a, b):
    T = module(H).IntersectionType
    H.check(tag + '-type', a.type == b.type)
    if a.type == T.EXACT:
        z = [(a.data, b.data)]
    else:
        z = [(a.data.p1, b.data.p1), (a.data.p2, b.data.p2)]
    for p, q in z:
        for i in H.each(p.ndim):
            H.check(tag + '-data', H.exact(H.at(p.data, i), H.at(q.data, i)))


class Operand(object):
    """A curve of m points, or a segment (one segment, index 0)."""

    def __init__(self, H, obj, m):
        self.H, self.obj, self.m = H, obj, m
        self.seg = isinstance(obj, H.sk.Segment)

    def segment(self, i):
        return self.obj if self.seg else self.obj.segments[i]

    def index(self, s):
        """The index of a reported segment."""
        H = self.H
        if self.seg:
            H.check('segment-of-the-operand', s is self.obj)
            return 0
        H.check('segment-of-the-operand', isinstance(s, H.sk.CurveSegment) and s.curve is self.obj)
        H.check('index', H.And(s.idx >= 0, s.idx < self.m - 1))
        for i in H.each(self.obj.ndim):
            H.check('ends', H.And(H.exact(H.at(s.p1.data, i), H.at(self.obj.data, s.idx, i)),
                                  H.exact(H.at(s.p2.data, i), H.at(self.obj.data, s.idx + 1, i))))
        return s.idx


def reported(H, res, A, B, own=False):
    """Everything that is reported is right, in row-major order."""
    T = module(H).IntersectionType
    for q, r in H.items(res):
        i, j = A.index(r.segment1), B.index(r.segment2)
        if own:
            H.check('not-adjacent', j - i >= 2)
        d = A.segment(i).intersect(B.segment(j), method='exact')
        H.check('intersect', d.intersect_type != T.NONE)
        if d.intersect_type == T.NONE:
            return
        same_info(H, 'reported', r.intersect_info, d.intersect_info)
        for p, o in H.items(res) if H.symbolic else list(H.items(res))[q + 1:q + 2]:
            k, l = A.index(o.segment1), B.index(o.segment2)
            H.check('row-major', H.Implies(q < p, H.Or(i < k, H.And(i == k, j < l))))


def complete(H, res, A, B, own=False):
    """Every pair that intersects is reported."""
    T = module(H).IntersectionType
    for i, j in H.each(1 if A.seg else A.m - 1, 1 if B.seg else B.m - 1):
        if own and not H.decide(j - i >= 2):
            continue
        d = A.segment(i).intersect(B.segment(j), method='exact')
        if d.intersect_type == T.NONE:
            continue
        ix = lambda O, s: 0 if O.seg else s.idx
        r = H.find('not-lost', res, (i, j), lambda r: ix(A, r.segment1) == i and ix(B, r.segment2) == j)
        H.check('reported', r is not None)
        if r is not None:
            H.check('reported-pair', H.And(ix(A, r.segment1) == i, ix(B, r.segment2) == j))


def build(H, kind):
    n = H.size('n', 2)
    a, m = curve(H, 'c', n)
    A = Operand(H, a, m)
    if kind == 'self':
        pair_contract(H, a.ndim)
        return A, A
    if kind == 'curves':
        b, k = twin(H, a, m) or curve(H, 'd', n)
        B = Operand(H, b, k)
    else:
        B = Operand(H, mkseg(H, 's', n)[0], 2)
        if kind == 'segment-first':
            A, B = B, A
    H.assume(A.obj.ndim == B.obj.ndim)
    pair_contract(H, A.obj.ndim)
    return A, B


def run(H, A, B):
    return A.obj.intersect(method='exact') if A is B else A.obj.intersect(B.obj, method='exact')


def each_kind(fn):
    for k in ('curves', 'self', 'curve-first', 'segment-first'):
        def one(H, k=k):
            return fn(H, k)
        one.__name__, one.__doc__ = '%s_%s' % (fn.__name__, k.replace('-', '_')), fn.__doc__
        contract('C11', functions=INT)(one)
    return fn


@each_kind
def only_intersecting_pairs(H, kind):
    """Every reported item is a pair of segments of the operands that intersect when intersected directly, with the same point
    or overlap; the items are in row-major order (self: the smaller index first, never adjacent)."""
    A, B = build(H, kind)
    reported(H, run(H, A, B), A, B, kind == 'self')


@each_kind
def every_intersecting_pair(H, kind):
    """Every pair of segments that intersect when intersected directly is reported (self: every non-adjacent pair)."""
    A, B = build(H, kind)
    complete(H, run(H, A, B), A, B, kind == 'self')


@contract('C11', functions=('Curve.intersect', '_intersect.intersect', '_numeric.as_inexact'), deductive=False,
          bound='plane and spatial curves of up to 8 points, every integer type')
def integer_coordinates(H):
    """The intersections of curves of integers are those of the same numbers as floating point ones."""
    d = int_dtype(H)
    k = H.choice('k', (2, 3))
    c, f, m, n = int_curves(H, 'c', d, hi=8, ndim=k)
    if H.choice('self', (False, True)):
        e, g = c, f
    else:
        e, g, _, _ = int_curves(H, 'e', d, hi=8, ndim=k)
    r, w = c.intersect(e, method='exact'), f.intersect(g, method='exact')
    H.check('pairs', [(x.segment1.idx, x.segment2.idx) for x in r] == [(x.segment1.idx, x.segment2.idx) for x in w])
    for x, y in zip(r, w):
        H.check('type', x.intersect_type == y.intersect_type)
        H.check('point', H.same_array(x.intersect_point.data, y.intersect_point.data))
