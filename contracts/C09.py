from pydv.contract import contract
from common import mkseg, int_curves, int_dtype
from C11 import Operand, curve, module, twin

INT = ('Curve.intersect', 'Segment.intersect', '_intersect.intersect', '_intersect.IntersectionMethodBase.__call__',
       '_intersect.IntersectionMethodBase._curves_intersect_indices', '_intersect.AlmostIntersectionMethod._intersect_curves',
       '_intersect.AlmostIntersectionMethod._intersect_segments', '_geomalg.segments_to_segments', '_geomalg.segment_to_segment')
OVL = ('_intersect.AlmostIntersectionMethod._correct_overlap', 'Segment.parallel', 'Segment.overlap')


def tolerance(H):
    t = H.real('dist_tol') if H.symbolic else H.choice('dist_tol', (1e-5, 1e-3, 0.3, 0.75, 1.25, 2.6))
    H.assume(t > 0)
    return t


def points(H, p, q, tag, loss=1.0):
    m = None if H.symbolic else H.mag * loss
    for i in H.each(p.ndim):
        H.check(tag, H.close(H.at(p.data, i), H.at(q.data, i), scale=m))


# ---------------------------------------------------------------- two segments
@contract('C09', functions=INT + OVL)
def pair_of_segments(H):
    """Two segments almost intersect iff their shortest segment is shorter than the tolerance; it is the datum, or, with
    overlap correction and parallel segments that overlap, their overlap."""
    n = H.size('n', 1)
    s, A, B = mkseg(H, 's', n)
    o, C, D = mkseg(H, 'o', n)
    tol, fix = tolerance(H), H.choice('correct_overlap', (False, True))
    ptol = H.choice('parallel_tol', (None, 0.01))
    x, y = H.opaque('x', 'vector', (s.p1, s.p2, o.p1, o.p2), n), H.opaque('y', 'vector', (s.p1, s.p2, o.p1, o.p2), n)
    H.callee(H.sk.Segment, 'shortest_segment', 'C08/between_segments', lambda *a, **k: H.sk.Segment(H.sk.Point(x), H.sk.Point(y)))
    T = module(H).IntersectionType
    k = {} if ptol is None else dict(parallel_tol=ptol)
    r = s.intersect(o, method='almost', dist_tol=tol, correct_overlap=fix, **k)
    z = s.shortest_segment(o)
    H.check('operands', r.segment1 is s and r.segment2 is o)
    if not H.decide(z.seglen < tol):
        H.check('none', r.intersect_type == T.NONE and r.intersect_info.data is None)
        return
    k = {} if ptol is None else dict(tol=ptol)
    v = s.overlap(o) if fix and H.decide(s.parallel(o, **k)) else None
    H.check('type', r.intersect_type == (T.ALMOST if v is None else T.OVERLAP))
    v = z if v is None else v
    points(H, r.intersect_info.data.p1, v.p1, 'datum')
    points(H, r.intersect_info.data.p2, v.p2, 'datum')


# ---------------------------------------------------------------- the batched computation
def batched(H, case):
    G = H.load('skcurve._geomalg')
    n = H.size('n', 2)
    c, m = curve(H, 'c', n, 2)
    d, k = curve(H, 'd', n, 2)
    if not H.symbolic:
        H.assume(c.ndim == d.ndim)
        n = c.ndim
    r = G.segments_to_segments(c.data, d.data)
    for i, j in H.each(m - 1, k - 1):
        s, o = c.segments[i], d.segments[j]
        if not clear(H, s, o, -1):
            continue
        if H.symbolic:
            u, v = (lambda q: H.at(c.data, i + 1, q) - H.at(c.data, i, q)), (lambda q: H.at(d.data, j + 1, q) - H.at(d.data, j, q))
            w = lambda q: H.at(c.data, i, q) - H.at(d.data, j, q)
            A, B, C, D, E = [H.sum(n, lambda q, f=f, g=g: f(q) * g(q)) for f, g in ((u, u), (u, v), (v, v), (u, w), (v, w))]
            p = A * C - B * B <= G.PARALLEL_TOL * A * C
            sn = B * E - C * D
            H.assume({'parallel': p, 'before': H.And(H.Not(p), sn < 0), 'after': H.And(H.Not(p), sn > A * C - B * B),
                      'inside': H.And(H.Not(p), sn >= 0, sn <= A * C - B * B)}[case])
        t1, t2 = G.segment_to_segment(s, o)
        f = lambda x: None if H.symbolic else loss(H, s, o) * (1 + 1e-6 * H.mag / (float(x.seglen) or 1.0))
        H.check('t1', H.close(H.at(r.t1, i, j), t1, scale=f(s)))
        H.check('t2', H.close(H.at(r.t2, i, j), t2, scale=f(o)))


for _k in ('parallel', 'before', 'after', 'inside'):
    def _one(H, k=_k):
        """The batched computation gives for every pair of segments what the computation for two segments gives (case by case)."""
        batched(H, k)
    _one.__name__ = 'batch_is_pairwise_' + _k
    contract('C09', functions=('_geomalg.segments_to_segments', '_geomalg.segment_to_segment'))(_one)


@contract('C09', functions=('_geomalg.segments_to_segments',))
def batch_points(H):
    """The points of the batched computation are those of its parameters; also for no segments."""
    G = H.load('skcurve._geomalg')
    n = H.size('n', 2)
    c, m = curve(H, 'c', n, 1)
    d, k = curve(H, 'd', n, 1)
    if not H.symbolic:
        H.assume(c.ndim == d.ndim)
        n = c.ndim
    r = G.segments_to_segments(c.data, d.data)
    for a in (r.t1, r.t2):
        H.check('shape', H.shape_is(a, m - 1, k - 1))
    for a in (r.p1, r.p2):
        H.check('shape-of-points', H.shape_is(a, n, m - 1, k - 1))
    z = dict(scale=None if H.symbolic else H.mag)
    for q, i, j in H.each(n, m - 1, k - 1):
        for p, t, x, e in ((r.p1, r.t1, c.data, i), (r.p2, r.t2, d.data, j)):
            H.check('point', H.close(H.at(p, q, i, j), H.at(x, e, q) + H.at(t, i, j) * (H.at(x, e + 1, q) - H.at(x, e, q)), **z))


# ---------------------------------------------------------------- curves
def build(H, kind):
    n = H.size('n', 2)
    a, m = curve(H, 'c', n)
    A = Operand(H, a, m)
    if kind == 'self':
        return A, A
    if kind == 'curves':
        b, k = twin(H, a, m) or curve(H, 'd', n)
        B = Operand(H, b, k)
    else:
        B = Operand(H, mkseg(H, 's', n)[0], 2)
        if kind == 'segment-first':
            A, B = B, A
    H.assume(A.obj.ndim == B.obj.ndim)
    return A, B


def modular(H):
    """The parameters of the shortest segment by their contracts: the batched computation gives what the one for two segments
    gives, a function of their ends."""
    G = H.load('skcurve._geomalg')

    def one(s, o, *a, **k):
        P = (s.p1, s.p2, o.p1, o.p2)
        return H.opaque('s', 'real', P), H.opaque('t', 'real', P)

    def batch(c, d, *a, **k):
        s, t = H.opaque_pairs('s', c, d), H.opaque_pairs('t', c, d)
        p = H.build((c.shape[1], c.shape[0] - 1, d.shape[0] - 1), lambda q, i, j: H.at(c, i, q) + H.at(s, i, j) * (H.at(c, i + 1, q) - H.at(c, i, q)))
        r = H.build((c.shape[1], c.shape[0] - 1, d.shape[0] - 1), lambda q, i, j: H.at(d, j, q) + H.at(t, i, j) * (H.at(d, j + 1, q) - H.at(d, j, q)))
        return G.SegmentsToSegmentsResult(s, t, p, r)
    H.callee(G, 'segment_to_segment', 'C09/batch_is_pairwise_*', one)
    H.callee(G, 'segments_to_segments', 'C09/batch_is_pairwise_*, C09/batch_points', batch)


def modular_overlap(H):
    """Parallelism and the overlap by their contracts (C08, C10): functions of the ends of the two segments."""
    S = H.sk.Segment

    default = H.load('skcurve._geomalg').PARALLEL_TOL

    def parallel(a, b, tol=default):
        return H.opaque('parallel/%r' % tol, 'bool', (a.p1, a.p2, b.p1, b.p2))

    def overlap(a, b, check_collinear=False):
        P = (a.p1, a.p2, b.p1, b.p2)
        c = '/collinear' if check_collinear else ''
        if not H.decide(H.opaque('overlaps' + c, 'bool', P)):
            return None
        return S(H.sk.Point(H.opaque('u' + c, 'vector', P, a.ndim)), H.sk.Point(H.opaque('v' + c, 'vector', P, a.ndim)))
    H.callee(S, 'parallel', 'C08, C10', parallel)
    H.callee(S, 'overlap', 'C10', overlap)


def run(H, A, B, **k):
    modular(H)
    if k.get('correct_overlap'):
        modular_overlap(H)
    return A.obj.intersect(method='almost', **k) if A is B else A.obj.intersect(B.obj, method='almost', **k)


def clear(H, s, o, tol, ptol=None):
    """At run time: the decisions are not within the rounding errors."""
    if H.symbolic:
        return True
    np = H.np
    u, v = s.direction.data.astype('float64'), o.direction.data.astype('float64')
    a, b, c = u @ u, u @ v, v @ v
    d = a * c - b * b
    if a * c > 0 and 1e-18 < abs(d) / (a * c) < 1e-9:
        return False
    if ptol is not None and abs(d - ptol * a * c) < 1e-9 * a * c and d != 0:
        return False
    return abs(s.shortest_segment(o).seglen - tol) > 1e-9 * (1 + H.mag)


def loss(H, s, o):
    """At run time: how much the position of the datum magnifies the rounding errors when the segments are nearly parallel."""
    if H.symbolic:
        return 1.0
    u, v = s.direction.data.astype('float64'), o.direction.data.astype('float64')
    a, b, c = u @ u, u @ v, v @ v
    d = abs(a * c - b * b) / (a * c) if a * c > 0 else 0
    return max(1.0, 1e-5 / d) if d > 1e-18 else 1.0


def datum(H, a, b, k=1.0):
    points(H, a.data.p1, b.data.p1, 'datum', k)
    points(H, a.data.p2, b.data.p2, 'datum', k)


def only(H, kind, order=True, **opt):
    A, B = build(H, kind)
    tol = tolerance(H)
    T = module(H).IntersectionType
    res = run(H, A, B, dist_tol=tol, **opt)
    for q, r in H.items(res):
        i, j = A.index(r.segment1), B.index(r.segment2)
        if kind == 'self':
            H.check('not-adjacent', j - i >= 2)
        s, o = A.segment(i), B.segment(j)
        if clear(H, s, o, tol, opt.get('parallel_tol')):
            d = s.intersect(o, method='almost', dist_tol=tol, **opt)
            H.check('intersect', d.intersect_type != T.NONE)
            if d.intersect_type == T.NONE:
                return
            H.check('type', r.intersect_type == d.intersect_type)
            if r.intersect_type == d.intersect_type:
                datum(H, r.intersect_info, d.intersect_info, loss(H, s, o))
        for p, w in () if not order else H.items(res) if H.symbolic else list(H.items(res))[q + 1:q + 2]:
            k, l = A.index(w.segment1), B.index(w.segment2)
            H.check('row-major', H.Implies(q < p, H.Or(i < k, H.And(i == k, j < l))))


def every(H, kind, **opt):
    A, B = build(H, kind)
    tol = tolerance(H)
    T = module(H).IntersectionType
    res = run(H, A, B, dist_tol=tol, **opt)
    for i, j in H.each(1 if A.seg else A.m - 1, 1 if B.seg else B.m - 1):
        if kind == 'self' and not H.decide(j - i >= 2):
            continue
        s, o = A.segment(i), B.segment(j)
        if not clear(H, s, o, tol):
            continue
        d = s.intersect(o, method='almost', dist_tol=tol)
        if d.intersect_type == T.NONE:
            continue
        ix = lambda O, s: 0 if O.seg else s.idx
        r = H.find('not-lost', res, (i, j), lambda r: ix(A, r.segment1) == i and ix(B, r.segment2) == j)
        H.check('reported', r is not None)
        if r is not None:
            H.check('reported-pair', H.And(ix(A, r.segment1) == i, ix(B, r.segment2) == j))


def each_kind(fn):
    for k in ('curves', 'self', 'curve-first', 'segment-first'):
        def one(H, k=k):
            return fn(H, k)
        one.__name__, one.__doc__ = '%s_%s' % (fn.__name__, k.replace('-', '_')), fn.__doc__
        contract('C09', functions=INT + (OVL if 'overlap' in fn.__name__ else ()))(one)
    return fn


@each_kind
def only_close_pairs(H, kind):
    """Every reported item is a pair of segments that the method reports when they are intersected directly, with the same
    shortest segment; the items are in row-major order (self: the smaller index first, never adjacent)."""
    only(H, kind)


@each_kind
def every_close_pair(H, kind):
    """Every pair of segments that the method reports directly is reported (self: every non-adjacent pair)."""
    every(H, kind)


@each_kind
def only_overlap(H, kind):
    """With overlap correction too, the reported items are those of the pairs intersected directly."""
    only(H, kind, order=False, correct_overlap=True)


@each_kind
def every_overlap(H, kind):
    """With overlap correction too, every pair that the method reports directly is reported."""
    every(H, kind, correct_overlap=True)


@contract('C09', functions=('_intersect.AlmostIntersectionMethod._remove_extra_intersections', '_intersect.AlmostIntersectionMethod._intersect_curves'),
          deductive=False, bound='plane and spatial curves of up to 14 points')
def extra_removed(H):
    """With extra intersections removed: a sub-list (in the same order) that contains, of the intersections linked by steps
    shorter than the tolerance, one that is not longer than the others; two kept ones are never closer than the tolerance."""
    kind, n = H.choice('kind', ('curves', 'self', 'segment')), H.size('n', 2, 4)

    def dense(name, lo):
        m = H.size(name + '_m', lo, 2 if kind == 'segment' and name == 'd' else 14)
        w = H.rng.choice((1.0, 2.0, 4.0))
        x = H.array(name, (m, n), fill=lambda: [[H.rng.randrange(4) * w / 2 + H.rng.choice((0.0, 0.0, H.rng.random())) for _ in range(n)]
                                                for _ in range(m)])
        return x, m
    a, m = dense('c', 3)
    A = B = Operand(H, H.sk.Curve(a), m)
    if kind != 'self':
        b, k = dense('d', 2)
        B = Operand(H, H.sk.Curve(b), k) if kind == 'curves' else Operand(H, H.sk.Segment(H.sk.Point(b[0]), H.sk.Point(b[1])), 2)
    tol, extra = tolerance(H), H.choice('extra_tol', (1e-3, 0.2, 0.5, 1.0, 2.0))
    fix = H.choice('correct_overlap', (False, True))
    k = dict(dist_tol=tol, correct_overlap=False)
    full = run(H, A, B, **k)
    res = run(H, A, B, remove_extra=True, extra_tol=extra, **dict(k, correct_overlap=fix))
    ends = lambda r: (0 if A.seg else r.segment1.idx, 0 if B.seg else r.segment2.idx)
    pairs, kept = [ends(r) for r in full], [ends(r) for r in res]
    H.check('subset-in-order', kept == [p for p in pairs if p in kept])
    np = H.np
    P = np.array([r.intersect_info.data.point(0.5).data for r in full], dtype='float64').reshape(len(full), A.obj.ndim)
    L = np.array([r.intersect_info.data.seglen for r in full])
    if not full:
        return
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(axis=-1))
    if (np.abs(D - extra) < 1e-9 * (1 + H.mag)).any():
        return
    near = D < extra
    for i, p in enumerate(pairs):
        seen, todo = {i}, [i]
        while todo:
            for j in np.flatnonzero(near[todo.pop()]):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        q = [j for j in seen if pairs[j] in kept]
        H.check('one-kept', len(q) == 1)
        H.check('kept-shortest', all(L[j] <= L[i] + 1e-9 * (1 + H.mag) for j in q))


@contract('C09', functions=('Curve.intersect', '_intersect.intersect', '_numeric.as_inexact'), deductive=False,
          bound='plane and spatial curves of up to 8 points, every integer type')
def integer_coordinates(H):
    """The intersections of curves of integers are those of the same numbers as floating point ones."""
    d = int_dtype(H)
    k = H.choice('k', (2, 3))
    c, f, m, n = int_curves(H, 'c', d, hi=8, ndim=k)
    if H.choice('self', (False, True)):
        e, g = c, f
    else:
        e, g, _, _ = int_curves(H, 'e', d, hi=8, ndim=k)
    r, w = c.intersect(e, method='almost'), f.intersect(g, method='almost')
    H.check('pairs', [(x.segment1.idx, x.segment2.idx) for x in r] == [(x.segment1.idx, x.segment2.idx) for x in w])
    for x, y in zip(r, w):
        H.check('type', x.intersect_type == y.intersect_type)
        H.check('point', H.same_array(x.intersect_point.data, y.intersect_point.data))


@contract('C09', functions=('Curve.intersect', 'Segment.intersect', '_intersect.intersect', '_intersect.almost_intersections'), deductive=False,
          bound='pairs of skew or parallel segments from 0.1 to 2 default tolerances apart')
def default_tolerance(H):
    """Without a tolerance, segments are taken to intersect when they are closer than the documented 1e-5."""
    np, sk = H.np, H.sk
    g = H.choice('gap', (1e-6, 5e-6, 9.5e-6, 1.05e-5, 1.5e-5, 2e-5))
    par = H.choice('parallel', (False, True))
    x, y = H.real('x', -0.9, 0.9), H.real('y', -0.9, 0.9)
    A = np.array([[-1.0, 0.0, 0.0], [1.0, 0.0, 0.0]])
    B = np.array([[-1.0, 0.0, g], [1.0, 0.0, g]]) if par else np.array([[x, -1.0, g], [x, 1.0, g]])
    B = B + (np.array([0.0, 0.0, 0.0]) if par else np.array([0.0, y, 0.0]))
    near = g < 1e-5
    P, S = sk.Point, sk.Segment
    s, o = S(P(A[0]), P(A[1])), S(P(B[0]), P(B[1]))
    H.check('segments', bool(s.intersect(o, method='almost')) == near)
    H.check('curves', bool(sk.Curve(A).intersect(sk.Curve(B), method='almost')) == near)
