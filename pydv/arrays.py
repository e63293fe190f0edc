"""Symbolic arrays: numpy.ndarray as (shape, element function, buffer)."""
import numbers
import numpy as rnp
import z3
from . import core, sym
from .core import Unsupported
from .sym import SymNum, SymBool, term, bterm, mknum, to_real, F64, I64, B1, OBJ, generic, has_bound

EXPAND = 12
_depth = [0]


def dim(t):
    """A dimension from a z3 Int term / int."""
    if isinstance(t, int):
        return t
    if isinstance(t, SymNum):
        t = t.t
    if isinstance(t, rnp.integer):
        return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymNum(t)


def dt(d):
    return z3.IntVal(d) if isinstance(d, int) else d.t


def dim_same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.simplify(dt(a) == dt(b)) if True else None


def dims_equal(a, b):
    """Decides a == b (forks when both are possible)."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return core.E.decide(dt(a) == dt(b))


def prod_dims(dims):
    r = 1
    for d in dims:
        r = d if (isinstance(r, int) and r == 1) else (r if (isinstance(d, int) and d == 1) else r * d)
    return r


# ------------------------------------------------------------------ reductions
def _atoms_poly(t, J, out_limit=400):
    """Polynomial normal form of t in the atoms that contain J: {ids: (coef, atoms)}."""
    def contains(x):
        return _contains(x, J)

    def add(p, q, neg=False):
        r = dict(p)
        for k, (c, a) in q.items():
            c = -c if neg else c
            if k in r:
                r[k] = (r[k][0] + c, a)
            else:
                r[k] = (c, a)
        return r

    def mul(p, q):
        r = {}
        for k1, (c1, a1) in p.items():
            for k2, (c2, a2) in q.items():
                at = sorted(a1 + a2, key=lambda x: x.get_id())
                k = tuple(x.get_id() for x in at)
                c = c1 * c2
                if k in r:
                    r[k] = (r[k][0] + c, at)
                else:
                    r[k] = (c, at)
        if len(r) > out_limit:
            raise Unsupported('sum body too large')
        return r

    one = z3.RealVal(1)

    def go(x):
        if not contains(x):
            return {(): (to_real(x), [])}
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_ADD:
            r = go(ch[0])
            for c in ch[1:]:
                r = add(r, go(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = add(r, go(c), True)
            return r
        if k == z3.Z3_OP_UMINUS:
            return add({}, go(ch[0]), True)
        if k == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]:
                r = mul(r, go(c))
            return r
        if k == z3.Z3_OP_DIV and not contains(ch[1]):
            d = ch[1]
            r = go(ch[0])
            return {kk: (c / d, a) for kk, (c, a) in r.items()}
        if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(ch[1])) or \
                (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1):
            e = int(ch[1].as_fraction()) if z3.is_rational_value(ch[1]) else ch[1].as_long()
            if 1 <= e <= 6:
                p = go(ch[0])
                r = p
                for _ in range(e - 1):
                    r = mul(r, p)
                return r
        if k == z3.Z3_OP_ITE and not contains(ch[0]):
            p, q = go(ch[1]), go(ch[2])
            r = {}
            for kk in set(p) | set(q):
                at = (p.get(kk) or q.get(kk))[1]
                cp = p[kk][0] if kk in p else z3.RealVal(0)
                cq = q[kk][0] if kk in q else z3.RealVal(0)
                r[kk] = (z3.If(ch[0], cp, cq), at)
            return r
        if k == z3.Z3_OP_TO_REAL:
            y = ch[0]
            yk = y.decl().kind()
            if yk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                parts = [z3.ToReal(c) if not z3.is_int_value(c) else z3.RealVal(c.as_long()) for c in y.children()]
                if yk == z3.Z3_OP_ADD:
                    r = go(parts[0])
                    for c in parts[1:]:
                        r = add(r, go(c))
                    return r
                if yk == z3.Z3_OP_SUB:
                    r = go(parts[0])
                    for c in parts[1:]:
                        r = add(r, go(c), True)
                    return r
                if yk == z3.Z3_OP_UMINUS:
                    return add({}, go(parts[0]), True)
                r = go(parts[0])
                for c in parts[1:]:
                    r = mul(r, go(c))
                return r
        return {(x.get_id(),): (one, [x])}
    return go(t)


_CONT = {}


def _contains(x, J):
    k = (x.get_id(), J.get_id())
    c = _CONT.get(k)
    if c is not None:
        return c[1]
    if x.eq(J):
        r = True
    elif z3.is_quantifier(x):
        r = _contains(x.body(), J)
    elif z3.is_var(x):
        r = False
    else:
        r = any(_contains(a, J) for a in x.children())
    if len(_CONT) > 300000:
        _CONT.clear()
    _CONT[k] = (x, r)
    return r


_SUMF = {}
_HV = {}


def _has_var(x):
    """Does x contain a de Bruijn variable (or a quantifier)?"""
    k = x.get_id()
    c = _HV.get(k)
    if c is None:
        if len(_HV) > 300000:
            _HV.clear()
        c = (x, z3.is_var(x) or z3.is_quantifier(x) or any(_has_var(a) for a in x.children()))
        _HV[k] = c
    return c[1]


def _sum_const(atoms, J, n):
    """SUM of the monomial over 0 <= J < n, as a function of its free integer arguments."""
    params = []

    def skel(x, arg=False):
        if x.eq(J):
            return 'J'
        if z3.is_var(x):
            return 'v%d' % z3.get_var_index(x)
        if not _contains(x, J) and not _has_var(x):
            if z3.is_rational_value(x) or z3.is_int_value(x) and not arg:
                return str(x)
            params.append(x)
            return '?i' if z3.is_int(x) else ('?b' if z3.is_bool(x) else '?r')
        if z3.is_quantifier(x):
            if x.is_lambda():
                raise Unsupported('lambda inside a sum')
            return '(Q%d%s %s)' % (x.is_forall(), ''.join(x.var_sort(i).name() for i in range(x.num_vars())), skel(x.body()))
        return '(%s %s)' % (x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else 'k%d' % x.decl().kind(),
                            ' '.join(skel(c, x.decl().kind() == z3.Z3_OP_UNINTERPRETED) for c in x.children()))
    keyed = []
    for a in atoms:
        del params[:]
        s = skel(a)
        keyed.append((s, tuple(str(p) for p in params), list(params)))
    keyed.sort(key=lambda z: (z[0], z[1]))
    allp = [n] + [p for z in keyed for p in z[2]]
    key = ' * '.join(z[0] for z in keyed)
    sorts = tuple(p.sort().name() for p in allp)
    f = _SUMF.get((key, sorts))
    if f is None:
        f = z3.Function('SUM{%d}' % len(_SUMF), *([p.sort() for p in allp] + [z3.RealSort()]))
        _SUMF[(key, sorts)] = f
    r = f(*allp)
    e = core.E
    if e is not None and not has_bound(r):
        ids = [a.get_id() for a in atoms]
        square = all(ids.count(i) % 2 == 0 for i in ids)

        def mk():
            fs = [z3.Implies(n <= 0, r == 0)]
            if square:
                fs.append(r >= 0)
            if len(keyed) == 2 and keyed[0][0] == keyed[1][0] and keyed[0][1] != keyed[1][1]:
                # the order of the two factors is not canonical when their parameters become equal to other terms
                fs.append(r == f(*([n] + keyed[1][2] + keyed[0][2])))
            return fs
        e.axiom(('sum', r.get_id(), r), mk)
    return r


def t_sum(n, fn):
    """Sum of fn(i) for 0 <= i < n as a z3 Real/Int term."""
    if isinstance(n, int) and n <= EXPAND:
        r = None
        for i in range(n):
            x = fn(z3.IntVal(i))
            if z3.is_bool(x):
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            r = x if r is None else sym.apply_op('add', r, x)
        return z3.RealVal(0) if r is None else r
    J = generic(_depth[0])
    _depth[0] += 1
    try:
        body = fn(J)
        isint = not z3.is_real(body)
        nonneg = _square_form(body)
        body = z3.simplify(to_real(body))
        p = _atoms_poly(body, J)
    finally:
        _depth[0] -= 1
    nt = dt(n)
    r = z3.RealVal(0)
    for k, (c, at) in p.items():
        c = z3.simplify(c)
        if z3.is_rational_value(c) and c.as_fraction() == 0:
            continue
        if not at:
            r = r + c * z3.ToReal(nt)
        else:
            r = r + c * _sum_const(at, J, nt)
    r = z3.simplify(r)
    e = core.E
    if nonneg and e is not None and not has_bound(r) and not z3.is_rational_value(r):
        e.axiom(('sumsq', r.get_id(), r), lambda: [r >= 0])
    if isint:
        k = z3.simplify(z3.ToInt(r))
        if e is not None and not has_bound(r):
            q = r
            e.axiom(('sumint', q.get_id(), q), lambda: [z3.ToReal(k) == q])
        r = k
    return r


def _square_form(t):
    """Is t syntactically a sum of squares (or of absolute values, square roots)?"""
    if not z3.is_expr(t):
        return False
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_MUL:
        ch = t.children()
        return len(ch) == 2 and (ch[0].eq(ch[1]) or all(_square_form(c) for c in ch))
    if k == z3.Z3_OP_POWER:
        e = z3.simplify(t.arg(1))
        return (z3.is_int_value(e) and e.as_long() % 2 == 0) or (
            z3.is_rational_value(e) and e.denominator_as_long() == 1 and e.numerator_as_long() % 2 == 0)
    if k == z3.Z3_OP_ADD:
        return all(_square_form(c) for c in t.children())
    if k == z3.Z3_OP_TO_REAL:
        return _square_form(t.arg(0))
    if k == z3.Z3_OP_ITE:
        c = t.arg(0)
        if z3.is_ge(c) and c.arg(0).eq(t.arg(1)) and z3.is_rational_value(c.arg(1)) and c.arg(1).as_fraction() == 0:
            return True
    return k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'sqrt'


def t_forall(n, fn, exists=False):
    if isinstance(n, int) and n <= EXPAND:
        ts = [fn(z3.IntVal(i)) for i in range(n)]
        return z3.simplify(z3.Or(ts) if exists else z3.And(ts)) if ts else z3.BoolVal(not exists)
    J = generic(_depth[0])
    _depth[0] += 1
    try:
        body = z3.simplify(fn(J))
    finally:
        _depth[0] -= 1
    nt = dt(n)
    if not _contains(body, J):
        return z3.simplify(z3.And(nt > 0, body) if exists else z3.Or(nt <= 0, body))
    off = _common_shift(body, J)
    if off is not None:
        # quantify over the position the body reads: forall J: P(J + c)  <=>  forall K: P(K), K = J + c
        c, sign = off
        body2 = z3.simplify(z3.substitute(body, (J, (J - c) if sign > 0 else (c - J))))
        rng = z3.simplify(z3.And(J >= c, J < c + nt) if sign > 0 else z3.And(J <= c, J > c - nt))
        body = body2
    else:
        rng = z3.And(J >= 0, J < nt)
    return z3.Exists([J], z3.And(rng, body)) if exists else z3.ForAll([J], z3.Implies(rng, body))


def _linear_in(x, J):
    """(offset, sign) when x is J + offset or offset - J."""
    if x.eq(J):
        return z3.IntVal(0), 1
    if z3.is_add(x):
        sign, rest = None, []
        for a in x.children():
            if a.eq(J) and sign is None:
                sign = 1
            elif z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() == -1 \
                    and a.arg(1).eq(J) and sign is None:
                sign = -1
            elif _contains(a, J):
                return None
            else:
                rest.append(a)
        if sign is not None:
            return z3.simplify(z3.Sum(rest)), sign
    return None


def _common_shift(body, J):
    """The common non-trivial shift of all reads of uninterpreted functions at positions depending on J."""
    found = []
    seen = set()

    def walk(x):
        if x.get_id() in seen or not _contains(x, J):
            return True
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return walk(x.body())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if z3.is_int(a) and _contains(a, J):
                    l = _linear_in(a, J)
                    if l is None:
                        if not walk(a):
                            return False
                        continue
                    if _has_var(l[0]):
                        return False
                    found.append(l)
                elif not walk(a):
                    return False
            return True
        return all(walk(a) for a in x.children())
    if not walk(body) or not found:
        return None
    c, s = found[0]
    if any(s2 != s or not c2.eq(c) for c2, s2 in found[1:]):
        return None
    if s == 1 and z3.is_int_value(c) and c.as_long() == 0:
        return None
    return c, s


def t_extreme(n, fn, mx):
    """max/min of fn(i), 0 <= i < n (n > 0)."""
    if isinstance(n, int) and n <= EXPAND:
        r = fn(z3.IntVal(0))
        for i in range(1, n):
            x = fn(z3.IntVal(i))
            r = z3.If(x > r, x, r) if mx else z3.If(x < r, x, r)
        return r
    if _depth[0]:
        raise Unsupported('nested max/min')
    J = generic(0)
    _depth[0] += 1
    try:
        body = z3.simplify(fn(J))
    finally:
        _depth[0] -= 1
    e = core.E
    key = ('ext', mx, body.get_id(), body, dt(n).get_id())
    if key in e.memo:
        return e.memo[key]
    m = z3.Const(e.fresh('EXT'), body.sort())
    k = z3.Int(e.fresh('EXTK'))
    e.memo[key] = m
    e.memo[('extk', m.get_id())] = k
    nt = dt(n)
    e.add(z3.And(k >= 0, k < nt, fn(k) == m))
    e.add(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < nt), (body <= m) if mx else (body >= m))))
    return m


# ------------------------------------------------------------------ buffers, arrays
def memo(fn):
    cache = {}

    def g(*idx):
        k = tuple(i.get_id() if z3.is_expr(i) else ('i', i) for i in idx)
        c = cache.get(k)
        if c is None:
            c = (idx, fn(*idx))
            cache[k] = c
        return c[1]
    return g


class Buf:
    """Storage: the element function of the base array plus a write log."""
    __slots__ = ('elem', 'writes', 'origin', 'bid')

    def __init__(self, elem, origin=''):
        self.elem = memo(elem)
        self.writes = []
        self.origin = origin
        e = core.E
        if e is not None:
            self.bid = len(e.buffers)
            e.buffers.append(self)
        else:
            self.bid = -1


class Flags:
    __slots__ = ('writeable', 'c_contiguous', 'f_contiguous', 'owndata')

    def __init__(self, w=True):
        self.writeable = w
        self.c_contiguous = self.f_contiguous = self.owndata = True

    def __getitem__(self, k):
        return getattr(self, k.lower())


class ArrMeta(type):
    pass


def _whole(*idx):
    return z3.BoolVal(True), idx


class SymArray:
    __array_priority__ = 1000

    def __init__(self, shape, dtype, elem=None, buf=None, mp=None, writeable=True, origin=''):
        self.shape = tuple(dim(d) for d in shape)
        self.dtype = rnp.dtype(dtype)
        self.buf = buf if buf is not None else Buf(elem, origin)
        self.mp = mp
        self.flags = Flags(writeable)
        self.base = None
        self.known_range = None

    # reads
    def at(self, *idx):
        return self.buf.elem(*(self.mp(*idx) if self.mp else idx))

    def snap(self):
        """The current element function (later writes do not affect it)."""
        e, mp = self.buf.elem, self.mp
        if mp is None:
            return e
        return memo(lambda *idx: e(*mp(*idx)))

    inv = None          # of a view: indices of the buffer -> (selected?, indices of the view)

    def view(self, shape, mp, inv=None):
        old = self.mp
        nmp = (lambda *idx: old(*mp(*idx))) if old else mp
        r = SymArray(shape, self.dtype, buf=self.buf, mp=nmp, writeable=self.flags.writeable)
        r.base = self
        if inv is not None and (old is None or self.inv is not None):
            pre = self.inv if old else None

            def back(*idx):
                if pre is None:
                    return inv(*idx)
                c, ix = pre(*idx)
                d, jx = inv(*ix)
                return z3.And(c, d), jx
            r.inv = back
        return r

    def setflags(self, write=None):
        if write is not None:
            self.flags.writeable = bool(write)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return dim(prod_dims(self.shape))

    @property
    def T(self):
        return self.transpose()

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def _as_scalar(self):
        if self.ndim == 0:
            return self.wrap(self.at())
        s = self.size
        if not (isinstance(s, int) and s == 1) and not core.E.decide(dt(s) == 1):
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return self.wrap(self.at(*[z3.IntVal(0)] * self.ndim))

    def wrap(self, x):
        if self.dtype.kind == 'O':
            return x
        if z3.is_bool(x):
            return SymBool(x, B1)
        return SymNum(x, self.dtype)

    def item(self, *args):
        x = self._as_scalar() if not args else self[args if len(args) > 1 else args[0]]
        return SymNum(x.t) if isinstance(x, SymNum) else x

    def __bool__(self):
        s = self.size
        if isinstance(s, int) and s == 0:
            return False
        if not (isinstance(s, int) and s == 1):
            if core.E.decide(dt(s) == 0):
                return False
            if not core.E.decide(dt(s) == 1):
                raise ValueError('The truth value of an array with more than one element is ambiguous. '
                                 'Use a.any() or a.all()')
        return bool(self._as_scalar())

    def __float__(self):
        raise Unsupported('float(array)')

    def __index__(self):
        return self._as_scalar().__index__()

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported('builtin len of a symbolic array')

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        d = self.shape[0]
        if not isinstance(d, int):
            for v in (2, 3, 1, 4):
                if core.E.entails(dt(d) == v):
                    return iter([self[i] for i in range(v)])
            raise Unsupported('iteration over a symbolic array')
        return iter([self[i] for i in range(d)])

    def __contains__(self, x):
        from . import npstub
        return bool(npstub.any(self == x))

    def __repr__(self):
        return '<sym array %s>' % (self.shape,)

    def __format__(self, s):
        return '<sym array>'

    def __array__(self, *a, **k):
        raise Unsupported('real numpy applied to a symbolic array')

    __hash__ = None

    # ---- shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        nd = self.ndim
        if not axes or axes == (None,):
            axes = tuple(range(nd))[::-1]
        axes = tuple(int(a) % nd for a in axes)
        if sorted(axes) != list(range(nd)):
            raise ValueError("axes don't match array")
        inv = [axes.index(k) for k in range(nd)]
        return self.view([self.shape[a] for a in axes], lambda *idx: tuple(idx[inv[k]] for k in range(nd)),
                         lambda *idx: (z3.BoolVal(True), tuple(idx[a] for a in axes)))

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [s if not isinstance(s, rnp.integer) else int(s) for s in shape]
        old = list(self.shape)
        if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
            if self.ndim == 1:
                return self.view(self.shape, lambda *i: i, _whole)
            shape = [prod_dims(old)]
        elif any(isinstance(s, int) and s == -1 for s in shape):
            k = [isinstance(s, int) and s == -1 for s in shape].index(True)
            rest = prod_dims(shape[:k] + shape[k + 1:])
            shape[k] = self.size // rest
        else:
            a, b = prod_dims(shape), self.size
            if not dims_equal(dim(a), dim(b)):
                raise ValueError('cannot reshape array of size %s into shape %s' % (b, shape))
        shape = [dim(s) for s in shape]
        # same shape
        if len(shape) == len(old) and all(_syn_eq(a, b) for a, b in zip(shape, old)):
            return self.view(shape, lambda *i: i, _whole)
        # only unit dimensions differ
        a = [(k, d) for k, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
        b = [(k, d) for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        if len(a) == len(b) and all(_syn_eq(x[1], y[1]) for x, y in zip(a, b)):
            def mp(*idx):
                r = [z3.IntVal(0)] * len(old)
                for (ka, _), (kb, _) in zip(a, b):
                    r[ka] = idx[kb]
                return tuple(r)

            def back(*idx):
                r = [z3.IntVal(0)] * len(shape)
                for (ka, _), (kb, _) in zip(a, b):
                    r[kb] = idx[ka]
                return z3.BoolVal(True), tuple(r)
            return self.view(shape, mp, back)
        # general row-major re-indexing
        if len(shape) == len(old) and all(dims_equal(x, y) for x, y in zip(shape, old)):
            return self.view(shape, lambda *i: i, _whole)
        if all(isinstance(d, int) for d in old[1:]) and all(isinstance(d, int) for d in shape[1:]) or \
                len(old) == 1 or len(shape) == 1:
            pass

        def mp2(*idx):
            flat = z3.IntVal(0)
            for k, i in enumerate(idx):
                flat = flat * dt(shape[k]) + i
            flat = z3.simplify(flat)
            r = []
            for k in reversed(range(len(old))):
                if k == 0:
                    r.append(flat)
                else:
                    d = dt(old[k])
                    q = flat / d
                    r.append(z3.simplify(flat - q * d) if not z3.is_int_value(d) else z3.simplify(flat % d))
                    flat = z3.simplify(q)
            return tuple(reversed(r))
        return self.view(shape, mp2)

    def ravel(self):
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        keep = []
        for k, d in enumerate(self.shape):
            if isinstance(d, int):
                if d != 1:
                    keep.append(k)
            elif not core.E.decide(dt(d) == 1):
                keep.append(k)
        nd = self.ndim

        def mp(*idx):
            r = [z3.IntVal(0)] * nd
            for p, k in enumerate(keep):
                r[k] = idx[p]
            return tuple(r)
        return self.view([self.shape[k] for k in keep], mp)

    def copy(self, order='C'):
        return SymArray(self.shape, self.dtype, self.snap())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, dtype, copy=True):
        from . import npstub
        dtype = npstub.dtype(dtype)
        if dtype == self.dtype and not copy:
            return self
        f, src = self.snap(), self.dtype
        if src.kind == 'O' and dtype.kind != 'O':
            return SymArray(self.shape, dtype, lambda *i: sym.cast_term(term(f(*i)), F64, dtype))
        return SymArray(self.shape, dtype, lambda *i: sym.cast_term(f(*i), src, dtype))

    def repeat(self, repeats, axis=None):
        if axis is None:
            raise Unsupported('repeat without axis')
        d = self.shape[axis]
        f = self.snap()
        if isinstance(d, int) and d == 1:
            shape = list(self.shape)
            shape[axis] = dim(repeats)
            return SymArray(shape, self.dtype, lambda *i: f(*(i[:axis] + (z3.IntVal(0),) + i[axis + 1:])))
        if isinstance(repeats, int) and isinstance(d, int):
            shape = list(self.shape)
            shape[axis] = d * repeats
            return SymArray(shape, self.dtype, lambda *i: f(*(i[:axis] + (i[axis] / repeats,) + i[axis + 1:])))
        rt = term(repeats)
        shape = list(self.shape)
        shape[axis] = dim(dt(d) * rt)
        return SymArray(shape, self.dtype, lambda *i: f(*(i[:axis] + (i[axis] / rt,) + i[axis + 1:])))

    def tolist(self):
        from .seq import SymList
        if self.ndim == 0:
            return self.item()
        d = self.shape[0]
        if isinstance(d, int):
            return [self[i].tolist() if self.ndim > 1 else _pyscalar(self[i]) for i in range(d)]
        src = self.copy()
        if src.ndim == 1:
            return SymList(d, lambda i: _pyscalar(src.wrap(src.at(term(i)))))
        return SymList(d, lambda i: SymArray(src.shape[1:], src.dtype, lambda *r: src.at(term(i), *r)).tolist())

    # ---- reductions
    def _red(self, name, axis, keepdims=False, **k):
        from . import npstub
        return getattr(npstub, name)(self, axis=axis, **({'keepdims': True} if keepdims else {}))

    def sum(self, axis=None, keepdims=False, dtype=None):
        return self._red('sum', axis, keepdims)

    def any(self, axis=None, keepdims=False):
        return self._red('any', axis, keepdims)

    def all(self, axis=None, keepdims=False):
        return self._red('all', axis, keepdims)

    def max(self, axis=None):
        return self._red('max', axis)

    def min(self, axis=None):
        return self._red('min', axis)

    def mean(self, axis=None):
        return self._red('mean', axis)

    def dot(self, o):
        from . import npstub
        return npstub.dot(self, o)

    def nonzero(self):
        from . import npstub
        return npstub.nonzero(self)

    def cumsum(self, axis=None):
        from . import npstub
        return npstub.cumsum(self, axis=axis)

    def __matmul__(self, o):
        return self.dot(o)

    def fill(self, v):
        self[...] = v

    # ---- arithmetic
    def _bin(self, o, op, right=False):
        if isinstance(o, (list, tuple)):
            from . import npstub
            o = npstub.asarray(o)
        if not isinstance(o, (SymArray, SymNum, SymBool, numbers.Number, rnp.number, rnp.bool_)):
            return NotImplemented
        a, b = (o, self) if right else (self, o)
        rd = result_dtype(a, b, op)
        if self.dtype.kind == 'O':
            raise Unsupported('arithmetic on object arrays')
        return ew(lambda x, y: _np_op(op, x, y), [a, b], rd)

    def _ibin(self, o, op):
        r = self._bin(o, op)
        if r is NotImplemented:
            return r
        if rnp.dtype(r.dtype).kind == 'f' and self.dtype.kind in 'iu':
            raise TypeError('Cannot cast ufunc output with casting rule same_kind')
        self[...] = r
        return self

    def __add__(self, o):
        return self._bin(o, 'add')

    def __radd__(self, o):
        return self._bin(o, 'add', True)

    def __sub__(self, o):
        return self._bin(o, 'sub')

    def __rsub__(self, o):
        return self._bin(o, 'sub', True)

    def __mul__(self, o):
        return self._bin(o, 'mul')

    def __rmul__(self, o):
        return self._bin(o, 'mul', True)

    def __truediv__(self, o):
        return self._bin(o, 'truediv')

    def __rtruediv__(self, o):
        return self._bin(o, 'truediv', True)

    def __floordiv__(self, o):
        return self._bin(o, 'floordiv')

    def __rfloordiv__(self, o):
        return self._bin(o, 'floordiv', True)

    def __mod__(self, o):
        return self._bin(o, 'mod')

    def __pow__(self, o):
        return self._bin(o, 'pow')

    def __rpow__(self, o):
        return self._bin(o, 'pow', True)

    def __iadd__(self, o):
        return self._ibin(o, 'add')

    def __isub__(self, o):
        return self._ibin(o, 'sub')

    def __imul__(self, o):
        return self._ibin(o, 'mul')

    def __itruediv__(self, o):
        return self._ibin(o, 'truediv')

    def __neg__(self):
        return ew(lambda x: -x, [self], self.dtype)

    def __abs__(self):
        return ew(sym.t_abs, [self], self.dtype)

    def _cmp(self, o, f):
        if o is None:
            raise Unsupported('array compared with None')
        if isinstance(o, (list, tuple)):
            from . import npstub
            o = npstub.asarray(o)
        if not isinstance(o, (SymArray, SymNum, SymBool, numbers.Number, rnp.number, rnp.bool_)):
            return NotImplemented
        return ew(lambda x, y: f(*sym.unify(x, y)), [self, o], B1)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def _log(self, o, f):
        if not isinstance(o, (SymArray, SymBool, bool, rnp.bool_)):
            return NotImplemented
        return ew(f, [self, o], B1)

    def __and__(self, o):
        return self._log(o, lambda a, b: z3.And(a, b))

    __rand__ = __and__

    def __or__(self, o):
        return self._log(o, lambda a, b: z3.Or(a, b))

    __ror__ = __or__

    def __xor__(self, o):
        return self._log(o, lambda a, b: z3.Xor(a, b))

    def __invert__(self):
        if self.dtype.kind != 'b':
            raise Unsupported('~ on a non-boolean array')
        return ew(lambda a: z3.Not(a), [self], B1)

    # ---- indexing
    def __getitem__(self, index):
        return getitem(self, index)

    def __setitem__(self, index, value):
        setitem(self, index, value)


def _pyscalar(x):
    if isinstance(x, SymNum):
        return mknum(x.t)
    if isinstance(x, SymBool):
        return SymBool(x.t)
    return x


def _syn_eq(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return z3.is_true(z3.simplify(a.t == b.t))


def _np_op(op, x, y):
    if op == 'pow':
        return sym.t_pow(x, y)
    return sym.apply_op(op, x, y, python=False)


def kind_of(x):
    """(dtype or None for python scalars, is_scalar)"""
    if isinstance(x, SymArray):
        return x.dtype, x.ndim == 0
    if isinstance(x, (SymNum, SymBool)):
        d = x.dtype
        if d is None:
            d = B1 if isinstance(x, SymBool) else (I64 if x.isint else F64)
        return d, True
    if isinstance(x, (bool, rnp.bool_)):
        return B1, True
    if isinstance(x, (rnp.number,)):
        return x.dtype, True
    if isinstance(x, int):
        return I64, True
    if isinstance(x, float):
        return F64, True
    if isinstance(x, complex):
        return rnp.dtype('complex128'), True
    raise Unsupported('operand %s' % type(x).__name__)


def result_dtype(a, b, op='add'):
    """numpy 1.19 promotion: arrays dominate scalars of the same or lower kind."""
    (da, sa), (db, sb) = kind_of(a), kind_of(b)
    if sa == sb:
        r = rnp.result_type(da, db)
    else:
        arr, sc = (db, da) if sa else (da, db)
        ka, ks = sym.KINDORD[arr.kind], sym.KINDORD[sc.kind]
        if ks <= ka:
            r = arr
        elif sc.kind == 'f':
            r = rnp.result_type(arr, rnp.float16) if arr.kind in 'b' else F64
            if arr.kind == 'b':
                r = sc
        else:
            r = rnp.result_type(arr, sc)
    if op == 'truediv' and r.kind in 'iub':
        r = F64
    return r


def broadcast_shapes(shapes):
    nd = max([len(s) for s in shapes] + [0])
    out = []
    flags = [[] for _ in shapes]
    for k in range(nd):
        cur = 1
        ds = []
        for s in shapes:
            p = k - (nd - len(s))
            ds.append(s[p] if p >= 0 else None)
        for d in ds:
            if d is None or (isinstance(d, int) and d == 1):
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif _syn_eq(cur, d):
                pass
            elif dims_equal(cur, d):
                if isinstance(d, int):
                    cur = d
            elif not isinstance(d, int) and core.E.decide(dt(d) == 1):
                pass
            elif not isinstance(cur, int) and core.E.decide(dt(cur) == 1):
                cur = d
            else:
                raise ValueError('operands could not be broadcast together with shapes %s'
                                 % ' '.join(str(s) for s in shapes))
        for q, d in enumerate(ds):
            if d is None:
                continue
            if isinstance(cur, int) and cur == 1:
                flags[q].append(True)
            elif isinstance(d, int):
                flags[q].append(d == 1 and not (isinstance(cur, int) and cur == 1))
            else:
                flags[q].append(not _syn_eq(cur, d) and not dims_equal(cur, d))
        out.append(cur)
    return tuple(out), flags


def bcast_reader(x, flags, nd):
    """Reader of array x under a broadcast to nd dimensions."""
    f = x.snap()
    k0 = nd - x.ndim
    zero = z3.IntVal(0)
    if not any(flags) and k0 == 0:
        return f
    return lambda *idx: f(*[zero if fl else idx[k0 + p] for p, fl in enumerate(flags)])


class Masked(SymArray):
    """arr[mask] for a mask of the full shape, kept lazy: element k is full(sigma(k))."""

    def __init__(self, dtype, mask, full):
        self.mask, self.full = mask, full
        self.dtype = rnp.dtype(dtype)
        self._mat = None
        self.mp = None
        self.flags = Flags(True)
        self.base = None
        self.known_range = None

    def _materialise(self):
        if self._mat is None:
            info = compress(self.mask)
            full = self.full
            self._mat = Buf(lambda k: full(*info.sigma(k)))
            self._shape = (info.K,)
        return self._mat

    @property
    def shape(self):
        self._materialise()
        return self._shape

    @property
    def buf(self):
        return self._materialise()

    @property
    def ndim(self):
        return 1

    def astype(self, dtype, copy=True):
        f, src, dtype = self.full, self.dtype, rnp.dtype(dtype)
        return Masked(dtype, self.mask, memo(lambda *i: sym.cast_term(f(*i), src, dtype)))

    def copy(self, order='C'):
        return Masked(self.dtype, self.mask, self.full)


def mask_key(mask):
    f = mask.snap()
    body = z3.simplify(f(*[generic(20 + k) for k in range(mask.ndim)]))
    return body, tuple(str(d) if isinstance(d, int) else z3.simplify(d.t).sexpr() for d in mask.shape)


def same_mask(a, b):
    if a is b:
        return True
    if a.ndim != b.ndim:
        return False
    (b1, s1), (b2, s2) = mask_key(a), mask_key(b)
    return s1 == s2 and b1.eq(b2)


class CompressInfo:
    __slots__ = ('K', 'sig', 'kap', 'mask', 'shape')

    def sigma(self, k):
        return tuple(f(k) for f in self.sig)

    def kappa(self, *idx):
        return self.kap(*idx)


def compress(mask):
    return _compress(mask)


def _compress(mask):
    """Positions of the true elements of mask in row-major order."""
    e = core.E
    body, shp = mask_key(mask)
    key = ('compress', body.get_id(), shp)
    if key in e.memo:
        return e.memo[key][1]
    nd = mask.ndim
    info = CompressInfo()
    name = e.fresh('sel')
    K = z3.Int(name + '_K')
    info.sig = [z3.Function('%s_s%d' % (name, d), z3.IntSort(), z3.IntSort()) for d in range(nd)]
    info.kap = z3.Function(name + '_pos', *([z3.IntSort()] * (nd + 1)))
    info.K = SymNum(K)
    info.mask, info.shape = mask.snap(), mask.shape
    e.memo[key] = (body, info)
    e.trusted.add('numpy boolean selection / nonzero: positions of true elements in row-major order')
    ks = [z3.Int('J?%s_q%d' % (name, i)) for i in range(2)]
    ii = [z3.Int('J?%s_i%d' % (name, d)) for d in range(nd)]
    k, k2 = ks
    f = info.mask
    sg = info.sigma(k)
    rng = [z3.And(s >= 0, s < dt(d)) for s, d in zip(sg, mask.shape)]
    e.add(K >= 0)
    if nd == 1:
        e.add(K <= dt(mask.shape[0]))
    mb = f(*sg)
    e.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(*(rng + [mb, info.kap(*sg) == k]))),
                    patterns=[info.sig[0](k)]))
    irng = [z3.And(i >= 0, i < dt(d)) for i, d in zip(ii, mask.shape)]
    kp = info.kap(*ii)
    e.add(z3.ForAll(ii, z3.Implies(z3.And(*(irng + [f(*ii)])),
                                   z3.And(*([kp >= 0, kp < K] + [s == i for s, i in zip(info.sigma(kp), ii)]))),
                    patterns=[kp]))
    lex = z3.BoolVal(False)
    for d in reversed(range(nd)):
        a, b = info.sig[d](k), info.sig[d](k2)
        lex = z3.Or(a < b, z3.And(a == b, lex))
    e.add(z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < K), lex),
                    patterns=[z3.MultiPattern(info.sig[0](k), info.sig[0](k2))]))
    if nd == 1:
        n0 = dt(mask.shape[0])
        q = z3.Int('J?sel')
        alltrue = t_forall(dim(mask.shape[0]), lambda i: f(i))
        e.add(z3.Implies(alltrue, z3.And(K == n0, z3.ForAll([q], z3.Implies(
            z3.And(q >= 0, q < K), info.sig[0](q) == q), patterns=[info.sig[0](q)]))))
        # the increasing enumeration of a finite set is unique
        for o in e.memo.get(('compress1', shp), []):
            e.lemmas.add('the increasing enumeration of a finite set of positions is unique')
            iff = t_forall(dim(mask.shape[0]), lambda i: f(i) == o.mask(i))
            q = z3.Int('J?sel')
            e.add(z3.Implies(iff, z3.And(K == o.K.t, z3.ForAll([q], z3.Implies(
                z3.And(q >= 0, q < K), info.sig[0](q) == o.sig[0](q)), patterns=[info.sig[0](q)]))))
        e.memo[('compress1', shp)] = e.memo.get(('compress1', shp), []) + [info]
    return info


def find_selection(mask):
    """An existing selection of provably the same positions (None when there is none)."""
    e = core.E
    _, shp = mask_key(mask)
    f = mask.snap()
    n = dim(mask.shape[0])
    for o in e.memo.get(('compress1', shp), []):
        ng = z3.Not(t_forall(n, lambda i: f(i) == o.mask(i)))
        e.solver.push()
        e.solver.limit = 1000 * core.RATE
        e.solver.add(ng)
        r = e.solver.check()
        e.solver.pop()
        e.solver.limit = (e.feasq_ms if e.nq else e.feas_ms) * core.RATE
        if r == z3.unsat:
            e.lemmas.add('the increasing enumeration of a finite set of positions is unique')
            return o
    return None


def edge_lemmas(info):
    """A selection is non-empty iff some element is true; nothing before its first position is true."""
    f, K = info.mask, info.K.t
    core.E.axiom(('edge', K.get_id(), K), lambda: [
        (K > 0) == t_forall(dim(info.shape[0]), lambda i: f(i), exists=True),
        z3.Implies(K > 0, t_forall(SymNum(info.sig[0](z3.IntVal(0))), lambda i: z3.Not(f(i))))])


def ew(fn, args, dtype, out_bool=None):
    """Elementwise application with broadcasting."""
    arrs = [a for a in args if isinstance(a, SymArray)]
    masked = [a for a in arrs if isinstance(a, Masked)]
    dtype = rnp.dtype(dtype)
    if masked and all(isinstance(a, Masked) and same_mask(a.mask, masked[0].mask) or a.ndim == 0 for a in arrs):
        rd = [a.full if isinstance(a, Masked) else (lambda t: (lambda *i: t))(_scal(a)) for a in args]
        return Masked(dtype, masked[0].mask, memo(lambda *i: fn(*[r(*i) for r in rd])))
    shape, flags = broadcast_shapes([a.shape for a in arrs])
    nd = len(shape)
    readers = []
    it = iter(flags)
    for a in args:
        if isinstance(a, SymArray):
            readers.append(bcast_reader(a, next(it), nd))
        else:
            readers.append((lambda t: (lambda *i: t))(_scal(a)))
    if nd == 0:
        t = fn(*[r() for r in readers])
        return SymBool(t, B1) if z3.is_bool(t) else SymNum(t, dtype)
    return SymArray(shape, dtype, lambda *i: fn(*[r(*i) for r in readers]))


def _scal(a):
    if isinstance(a, SymArray):
        return a.at()
    return term(a)


# ------------------------------------------------------------------ index expressions
def norm_index(i, d):
    """Normalises an integer index into dimension d; raises IndexError when out of range."""
    it, n = term(i), dt(d)
    if z3.is_int_value(z3.simplify(it)) and isinstance(d, int):
        v = z3.simplify(it).as_long()
        if v < -d or v >= d:
            raise IndexError('index %d is out of bounds for axis with size %d' % (v, d))
        return z3.IntVal(v + d if v < 0 else v)
    e = core.E
    if e.decide(it >= 0):
        if e.decide(it >= n):
            raise IndexError('index is out of bounds')
        return z3.simplify(it)
    if e.decide(it < -n):
        raise IndexError('index is out of bounds')
    return z3.simplify(it + n)


def slice_params(s, d):
    """(start term, length dim, step int) of slice s over dimension d."""
    step = s.step
    if isinstance(step, SymNum):
        t = z3.simplify(step.t)
        if not z3.is_int_value(t):
            raise Unsupported('symbolic slice step')
        step = t.as_long()
    if step is None:
        step = 1
    step = int(step)
    if step == 0:
        raise ValueError('slice step cannot be zero')
    n = dt(d)
    e = core.E

    def clamp(v, lo, hi):
        t = term(v)
        if not z3.is_int(t):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        if z3.is_int_value(z3.simplify(t)) and z3.is_int_value(n):
            v, h, l_ = z3.simplify(t).as_long(), z3.simplify(hi).as_long(), z3.simplify(lo).as_long()
            v = v + n.as_long() if v < 0 else v
            return z3.IntVal(min_(max_(v, l_), h))
        if e.check(t < 0) == z3.unsat:
            if e.check(t > hi) == z3.unsat:
                return t
            return z3.If(t > hi, hi, t)
        if e.check(t >= 0) == z3.unsat:
            if e.check(t + n < lo) == z3.unsat:
                return z3.simplify(t + n)
            return z3.If(t + n < lo, lo, t + n)
        return z3.If(t < 0, z3.If(t + n < lo, lo, t + n), z3.If(t > hi, hi, t))
    zero = z3.IntVal(0)
    if step > 0:
        start = zero if s.start is None else clamp(s.start, zero, n)
        stop = n if s.stop is None else clamp(s.stop, zero, n)
        span = z3.simplify(stop - start)
        if e.decide(span <= 0):
            return start, 0, step
        ln = span if step == 1 else (span + (step - 1)) / step
        if step == 1 and s.start is None and isinstance(s.stop, int) and 0 < s.stop <= 3 and e.check(span != s.stop) == z3.unsat:
            ln = z3.IntVal(s.stop)
    else:
        m1 = z3.IntVal(-1)
        start = n - 1 if s.start is None else clamp(s.start, m1, n - 1)
        stop = m1 if s.stop is None else clamp(s.stop, m1, n - 1)
        span = z3.simplify(start - stop)
        if e.decide(span <= 0):
            return start, 0, step
        ln = span if step == -1 else (span + (-step - 1)) / (-step)
    return z3.simplify(start), dim(ln), step


def is_int_scalar(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, (int, rnp.integer)):
        return True
    if isinstance(x, SymNum):
        return x.isint
    return isinstance(x, SymArray) and x.ndim == 0 and x.dtype.kind in 'iu'


def _prep_index(a, index):
    from . import npstub
    from .seq import SymSeq
    if not isinstance(index, tuple):
        index = (index,)
    out = []
    for x in index:
        if isinstance(x, (list, SymSeq)):
            x = npstub.asarray(x)
            if x.dtype.kind == 'f' and isinstance(x.shape[0], int) and x.shape[0] == 0:
                x = x.astype(I64)
        if isinstance(x, SymArray) and x.ndim == 0 and x.dtype.kind in 'iu':
            x = x._as_scalar()
        if isinstance(x, (SymNum,)) and not x.isint or isinstance(x, float):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                             'and integer or boolean arrays are valid indices')
        if isinstance(x, SymArray) and x.dtype.kind not in 'iub':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        out.append(x)
    used = builtins_sum(1 if not (isinstance(x, SymArray) and x.dtype.kind == 'b') else x.ndim
                        for x in out if x is not None and x is not Ellipsis)
    if used > a.ndim:
        raise IndexError('too many indices for array')
    if Ellipsis in [x for x in out if x is Ellipsis]:
        k = [x is Ellipsis for x in out].index(True)
        out[k:k + 1] = [slice(None)] * (a.ndim - used)
    else:
        out += [slice(None)] * (a.ndim - used)
    return out


import builtins as _b
builtins_sum = _b.sum
min_, max_ = _b.min, _b.max
from .seq import is_slice  # noqa: E402


def getitem(a, index):
    items = _prep_index(a, index)
    advs = [x for x in items if isinstance(x, SymArray)]
    if len(advs) == 1 and advs[0].dtype.kind == 'b' and advs[0].ndim == a.ndim and len(items) == 1:
        m = advs[0]
        _check_mask(a, m)
        if a.ndim > 1 or a.dtype.kind != 'O':
            return Masked(a.dtype, m.copy(), a.snap())
    shape, plan, pos = [], [], 0       # plan[k]: how to make source index k
    advlen = None
    advpos = None
    advidx = []
    for x in items:
        if x is None:
            shape.append(1)
            continue
        if isinstance(x, SymArray):
            if x.dtype.kind == 'b':
                for q in range(x.ndim):
                    if not dims_equal(x.shape[q], a.shape[pos + q]):
                        raise IndexError('boolean index did not match indexed array')
                info = compress(x)
                if advpos is None:
                    advpos = len(shape)
                    shape.append(info.K)
                    advlen = info.K
                else:
                    raise Unsupported('mixed advanced indices')
                for q in range(x.ndim):
                    plan.append(('adv', len(advidx)))
                    advidx.append(info.sig[q])
                    pos += 1
                continue
            d = a.shape[pos]
            f = x.snap()
            if x.ndim != 1:
                if len(advs) > 1 or x.ndim == 0:
                    raise Unsupported('multi-dimensional index arrays')
            n = dt(d)
            if not (x.known_range is not None and _syn_eq(x.known_range, d)):
                ok = core.E.decide(_all_nd(x.shape, lambda *i: z3.And(f(*i) >= -n, f(*i) < n)))
                if not ok:
                    raise IndexError('index is out of bounds')
                g = (lambda f, n: (lambda *i: z3.If(f(*i) < 0, f(*i) + n, f(*i))))(f, n)
            else:
                g = f
            if advpos is None:
                advpos = len(shape)
                for q in x.shape:
                    shape.append(q)
                advlen = x.shape
            elif not all(dims_equal(p, q) for p, q in zip(advlen if isinstance(advlen, tuple) else (advlen,), x.shape)):
                raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
            plan.append(('adv', len(advidx)))
            advidx.append(g)
            pos += 1
            continue
        d = a.shape[pos]
        if is_slice(x):
            start, ln, step = slice_params(x, d)
            plan.append(('slice', len(shape), start, step))
            shape.append(ln)
        elif is_int_scalar(x):
            plan.append(('int', norm_index(x, d)))
        else:
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                             'and integer or boolean arrays are valid indices')
        pos += 1
    nadv = 0
    if advpos is not None:
        nadv = len(advlen) if isinstance(advlen, tuple) else 1
        # advanced indices separated by slices would move to the front
        kinds = [isinstance(x, SymArray) for x in items if x is not None]
        first, last = kinds.index(True), len(kinds) - 1 - kinds[::-1].index(True)
        if not all(kinds[first:last + 1]):
            raise Unsupported('separated advanced indices')

    def mp(*idx):
        r = []
        for p in plan:
            if p[0] == 'int':
                r.append(p[1])
            elif p[0] == 'slice':
                i = idx[p[1]]
                if p[3] == 1:
                    r.append(i if z3.is_int_value(p[2]) and p[2].as_long() == 0 else z3.simplify(p[2] + i))
                else:
                    r.append(z3.simplify(p[2] + p[3] * i))
            else:
                r.append(advidx[p[1]](*idx[advpos:advpos + nadv]))
        return tuple(r)
    if advpos is None:
        if not shape:
            x = a.at(*mp())
            return a.wrap(x)
        def back(*idx):
            conds, r, q = [], [None] * len(shape), 0
            for k in range(len(shape)):
                r[k] = z3.IntVal(0)         # new axes
            for p, i in zip(plan, idx):
                if p[0] == 'int':
                    conds.append(i == p[1])
                else:
                    _, k, start, step = p
                    ln = dt(shape[k])
                    off = z3.simplify(i - start)
                    if step == 1:
                        v = off
                    elif step == -1:
                        v = z3.simplify(-off)
                    else:
                        conds.append(off % abs(step) == 0)
                        v = z3.simplify(off / step)
                    conds += [v >= 0, v < ln]
                    r[k] = v
            return z3.simplify(z3.And(conds)) if conds else z3.BoolVal(True), tuple(r)
        return a.view(shape, mp, back)
    f = a.snap()
    r = SymArray(shape, a.dtype, lambda *idx: f(*mp(*idx)))
    r.known_range = a.known_range
    return r


def _check_mask(a, m):
    for p, q in zip(a.shape, m.shape):
        if not dims_equal(p, q):
            raise IndexError('boolean index did not match indexed array')


def _all_nd(shape, fn):
    if len(shape) == 1:
        return t_forall(shape[0], fn)
    return t_forall(shape[0], lambda i: _all_nd(shape[1:], lambda *r: fn(i, *r)))


def setitem(a, index, value):
    from . import npstub
    if not a.flags.writeable:
        raise ValueError('assignment destination is read-only')
    items = _prep_index(a, index)
    a.buf.writes.append('setitem')
    if a.mp is not None:
        if a.inv is None:
            raise Unsupported('write through a view')
        # the same write on a copy of the view, carried over to the positions of the buffer the view selects
        tmp = SymArray(a.shape, a.dtype, a.snap())
        setitem(tmp, index, value)
        new, old, inv = tmp.snap(), a.buf.elem, a.inv

        def put(*idx):
            c, v = inv(*idx)
            return new(*v) if z3.is_true(c) else z3.If(c, new(*v), old(*idx))
        a.buf.elem = memo(put)
        return
    old = a.buf.elem
    dtype = a.dtype

    def cast(t, src):
        return sym.cast_term(t, src, dtype)
    if len(items) == 1 and isinstance(items[0], SymArray) and items[0].dtype.kind == 'b' and items[0].ndim == a.ndim:
        m = items[0]
        _check_mask(a, m)
        mf = m.snap()
        if isinstance(value, SymArray) and value.ndim > 0:
            if isinstance(value, Masked) and same_mask(value.mask, m):
                vf, src = value.full, value.dtype
                a.buf.elem = memo(lambda *i: z3.If(mf(*i), cast(vf(*i), src), old(*i)))
                return
            info = compress(m)
            if not dims_equal(value.shape[0], info.K) and not dims_equal(value.shape[0], 1):
                raise ValueError('NumPy boolean array indexing assignment cannot assign')
            vf, src = value.snap(), value.dtype
            a.buf.elem = memo(lambda *i: z3.If(mf(*i), cast(vf(info.kappa(*i)), src), old(*i)))
            return
        src, _ = kind_of(value)
        vt = cast(_scal(value), src)
        a.buf.elem = memo(lambda *i: z3.If(mf(*i), vt, old(*i)))
        return
    if builtins_all(isinstance(x, SymArray) and x.dtype.kind in 'iu' for x in items):
        # a[i_arr, j_arr] = scalar
        if isinstance(value, SymArray) and value.ndim > 0:
            raise Unsupported('fancy assignment of an array')
        src, _ = kind_of(value)
        vt = cast(_scal(value), src)
        member = getattr(items[0], 'member', None)
        if member is not None and builtins_all(getattr(x, 'member', None) is member for x in items) \
                and len(items) == len(member[0]):
            mem = member[1]
            a.buf.elem = memo(lambda *i: z3.If(mem(*i), vt, old(*i)))
            return
        fs = [x.snap() for x in items]
        n = items[0].shape[0]
        nds = [dt(d) for d in a.shape]
        a.buf.elem = memo(lambda *i: z3.If(t_forall(n, lambda k: z3.And(
            [z3.Or(f(k) == ii, f(k) + nd_ == ii) for f, ii, nd_ in zip(fs, i, nds)]), exists=True), vt, old(*i)))
        return
    # basic indices
    shape, plan = [], []
    for k, x in enumerate(items):
        if x is None:
            raise Unsupported('newaxis in assignment')
        if is_slice(x):
            start, ln, step = slice_params(x, a.shape[k])
            plan.append(('slice', start, ln, step, len(shape)))
            shape.append(ln)
        elif is_int_scalar(x):
            plan.append(('int', norm_index(x, a.shape[k])))
        else:
            raise Unsupported('assignment index')
    if not isinstance(value, (SymArray, SymNum, SymBool, numbers.Number, rnp.number, rnp.bool_)):
        value = npstub.asarray(value)
    if isinstance(value, SymArray):
        # broadcast value to shape
        v = value
        while v.ndim > len(shape):
            if not dims_equal(v.shape[0], 1):
                raise ValueError('could not broadcast input array')
            v = v[0]
        fl = []
        if isinstance(v, SymArray):
            off = len(shape) - v.ndim
            for p, d in enumerate(v.shape):
                tgt = shape[off + p]
                if dims_equal(d, tgt):
                    fl.append(False)
                elif dims_equal(d, 1):
                    fl.append(True)
                else:
                    raise ValueError('could not broadcast input array from shape %s into shape %s' % (v.shape, shape))
            vf, src = bcast_reader(v, fl, len(shape)), v.dtype
        else:
            t0, src = term(v), kind_of(v)[0]
            vf = lambda *i: t0
    else:
        t0, src = term(value), kind_of(value)[0]
        vf = lambda *i: t0

    def new(*idx):
        conds, vi = [], [None] * len(shape)
        for k, p in enumerate(plan):
            i = idx[k]
            if p[0] == 'int':
                conds.append(i == p[1])
            else:
                _, start, ln, step, q = p
                if step == 1:
                    conds.append(z3.And(i >= start, i < start + dt(ln)))
                    vi[q] = z3.simplify(i - start)
                elif step == -1:
                    conds.append(z3.And(i <= start, i > start - dt(ln)))
                    vi[q] = z3.simplify(start - i)
                else:
                    off = i - start
                    conds.append(z3.And(off % abs(step) == 0, off / step >= 0, off / step < dt(ln)))
                    vi[q] = z3.simplify(off / step)
        c = z3.simplify(z3.And(conds)) if conds else z3.BoolVal(True)
        if z3.is_true(c):
            return cast(vf(*vi), src)
        if z3.is_false(c):
            return old(*idx)
        return z3.If(c, cast(vf(*vi), src), old(*idx))
    full = builtins_all(p[0] == 'slice' and z3.is_int_value(p[1]) and p[1].as_long() == 0 and p[3] == 1
                        and _syn_eq(p[2], a.shape[k]) for k, p in enumerate(plan))
    if full:
        a.buf.elem = memo(lambda *i: cast(vf(*i), src))
    else:
        a.buf.elem = memo(new)


builtins_all = _b.all
