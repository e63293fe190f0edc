"""Symbolic scalars."""
import numbers, fractions, math
import numpy as rnp
import z3
from . import core
from .core import Unsupported

F64 = rnp.dtype('float64')
I64 = rnp.dtype('int64')
B1 = rnp.dtype('bool')
OBJ = rnp.dtype('object')

NAN = z3.Real('NaN')
INF = z3.Real('Inf')


def lit(x):
    """z3 term of a concrete python/numpy scalar."""
    if isinstance(x, (bool, rnp.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, rnp.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, rnp.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else -INF
        return z3.RealVal(repr(x) if 'e' not in repr(x) and 'E' not in repr(x)
                          else str(fractions.Fraction(repr(x))))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    raise Unsupported('literal of type %s' % type(x).__name__)


def term(x):
    if isinstance(x, (SymNum, SymBool)):
        return x.t
    if z3.is_expr(x):
        return x
    ar = getattr(x, '_as_scalar', None)
    if ar is not None:
        return term(ar())
    return lit(x)


def to_real(t):
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def to_int(t):
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(t):
        return t
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def unify(a, b):
    if z3.is_bool(a) and not z3.is_bool(b):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b) and not z3.is_bool(a):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(a) and z3.is_bool(b):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(a) and z3.is_real(b):
        a = to_real(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = to_real(b)
    return a, b


_SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
_SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
_COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
_ACOS = z3.Function('arccos', z3.RealSort(), z3.RealSort())
_ROUND = z3.Function('round', z3.RealSort(), z3.IntSort())
_F32 = z3.Function('f32', z3.RealSort(), z3.RealSort())
_POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
_FC = z3.Function('fresnel_c', z3.RealSort(), z3.RealSort())
_FS = z3.Function('fresnel_s', z3.RealSort(), z3.RealSort())


def t_sqrt(t):
    t = z3.simplify(to_real(t), som=False)
    if z3.is_rational_value(t):
        f = t.as_fraction()
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(str(fractions.Fraction(n, d)))
    r = _SQRT(t)
    e = core.E
    if e is not None and not has_bound(t):
        e.axiom(('sqrt', t.get_id(), t), lambda: [z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)),
                                                z3.Implies(t == 0, r == 0), z3.Implies(t > 0, r > 0)])
    return r


_GENERIC = {}


def generic(i=0):
    """The canonical generic index used inside sums and quantifiers."""
    return z3.Int('J?%d' % i)


def has_bound(t):
    """Does the term contain a generic index (then no ground axiom can be stated)?"""
    k = t.get_id()
    c = _GENERIC.get(k)
    if c is not None:
        return c[1]
    if z3.is_quantifier(t):
        r = has_bound(t.body())
    elif z3.is_var(t):
        r = False
    elif t.num_args() == 0:
        r = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('J?')
    else:
        r = any(has_bound(a) for a in t.children())
    if len(_GENERIC) > 200000:
        _GENERIC.clear()
    _GENERIC[k] = (t, r)
    return r


def t_sin(t):
    t = z3.simplify(to_real(t))
    _trig(t)
    return _SIN(t)


def t_cos(t):
    t = z3.simplify(to_real(t))
    _trig(t)
    return _COS(t)


def _trig(t):
    e = core.E
    s, c = _SIN(t), _COS(t)
    if e is not None and not has_bound(t):
        e.axiom(('trig', t.get_id(), t), lambda: [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1])


def t_arccos(t):
    t = z3.simplify(to_real(t))
    r = _ACOS(t)
    e = core.E
    pi = z3.Real('PI')
    if e is not None and not has_bound(t):
        def mk():
            fs = [z3.Implies(z3.And(t >= -1, t <= 1),
                             z3.And(r >= 0, r <= pi, (r == 0) == (t == 1), (r == pi) == (t == -1))),
                  _ACOS(z3.simplify(-t)) == pi - r]
            for o in e.memo.get('acos', []):
                ro = _ACOS(o)
                fs.append(z3.And((t == o) == (r == ro), (t < o) == (r > ro)))
            e.memo['acos'] = e.memo.get('acos', []) + [t]
            return fs
        e.axiom(('arccos', t.get_id(), t), mk)
    return r


def t_round(t):
    if z3.is_int(t):
        return t
    r = _ROUND(t)
    e = core.E
    if e is not None and not has_bound(t):
        rr = z3.ToReal(r)
        e.axiom(('round', t.get_id(), t), lambda: [rr - t <= _q('1/2'), t - rr <= _q('1/2')])
    return r


def _q(s):
    return z3.RealVal(s)


def t_abs(t):
    return z3.If(t >= 0, t, -t)


def t_pow(a, b):
    """a ** b for terms."""
    bs = z3.simplify(b)
    if z3.is_int_value(bs):
        k = bs.as_long()
        if 0 <= k <= 8:
            r = z3.IntVal(1) if z3.is_int(a) else z3.RealVal(1)
            for i in range(k):
                r = a if i == 0 else r * a
            return r
        if -4 <= k < 0:
            r = to_real(a)
            for i in range(-k - 1):
                r = r * to_real(a)
            return 1 / r
    if z3.is_rational_value(bs):
        f = bs.as_fraction()
        if f.denominator == 1:
            return t_pow(to_real(a), z3.IntVal(f.numerator))
        if f.denominator == 2 and f.numerator > 0:
            s = t_sqrt(a)
            return t_pow(s, z3.IntVal(f.numerator))
    return _POW(to_real(a), to_real(b))


def t_floor_div(a, b):
    if z3.is_int(a) and z3.is_int(b):
        b1 = z3.simplify(b)
        if z3.is_int_value(b1) and b1.as_long() > 0:
            return a / b
        s = _exact_div(a, b)
        if s is not None:
            return s
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(to_real(a) / to_real(b)))


def _factors(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        out = []
        for c in t.children():
            out += _factors(c)
        return out
    return [t]


def _exact_div(a, b):
    fa, fb = _factors(a), _factors(b)
    rest = list(fa)
    for f in fb:
        for k, g in enumerate(rest):
            if g.eq(f):
                del rest[k]
                break
        else:
            return None
    e = core.E
    if e is None or not e.decide(b != 0):
        return None
    r = z3.IntVal(1)
    for g in rest:
        r = r * g
    return z3.simplify(r)


KINDORD = {'b': 0, 'i': 1, 'u': 1, 'f': 2, 'c': 3, 'O': 9}


def scalar_result_dtype(a, b, op):
    """Result dtype of a scalar operation (None: python number)."""
    da, db = a, b
    if da is None and db is None:
        return None
    if da is None:
        da = db
    if db is None:
        db = da
    r = rnp.result_type(da, db)
    if op == 'truediv' and r.kind in 'iub':
        r = F64
    return r


class SymBool:
    __slots__ = ('t', 'dtype')
    size = 1
    ndim = 0
    shape = ()

    def __init__(self, t, dtype=None):
        self.t, self.dtype = t, dtype

    def __bool__(self):
        return core.E.decide(self.t)

    def __eq__(self, o):
        return SymBool(self.t == bterm(o))

    def __ne__(self, o):
        return SymBool(self.t != bterm(o))

    def __hash__(self):
        return self.t.hash()

    def _bin(self, o, f):
        if isinstance(o, (SymBool, bool, rnp.bool_)):
            return SymBool(f(self.t, bterm(o)), self.dtype)
        return NotImplemented

    def __and__(self, o):
        return self._bin(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t), self.dtype)

    def _num(self):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), self.dtype)

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __repr__(self):
        return '<sym bool>'

    def __format__(self, s):
        return '<sym bool>'

    def all(self, axis=None):
        return self

    any = all


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, rnp.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    ar = getattr(x, '_as_scalar', None)
    if ar is not None:
        return bterm(ar())
    if isinstance(x, SymNum):
        return x.t != 0
    raise Unsupported('boolean of %s' % type(x).__name__)


def mknum(t, dtype=None):
    if z3.is_bool(t):
        t1 = z3.simplify(t)
        if z3.is_true(t1) or z3.is_false(t1):
            return z3.is_true(t1) if dtype is None else rnp.bool_(z3.is_true(t1))
        return SymBool(t, dtype)
    if z3.is_int(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() if dtype is None else SymNum(t, dtype)
    return SymNum(t, dtype)


class SymNum:
    __slots__ = ('t', 'dtype')
    size = 1
    ndim = 0
    shape = ()
    __array_priority__ = 100

    def __init__(self, t, dtype=None):
        self.t, self.dtype = t, dtype

    @property
    def isint(self):
        return z3.is_int(self.t)

    # arithmetic
    def _op(self, o, op, right=False):
        if not isinstance(o, (SymNum, SymBool, int, float, rnp.number, rnp.bool_, fractions.Fraction)):
            return NotImplemented
        a, b = self.t, term(o)
        da, db = self.dtype, getattr(o, 'dtype', None)
        if right:
            a, b, da, db = b, a, db, da
        return mknum(apply_op(op, a, b, python=(da is None and db is None)), scalar_result_dtype(da, db, op))

    def __add__(self, o):
        return self._op(o, 'add')

    def __radd__(self, o):
        return self._op(o, 'add', True)

    def __sub__(self, o):
        return self._op(o, 'sub')

    def __rsub__(self, o):
        return self._op(o, 'sub', True)

    def __mul__(self, o):
        return self._op(o, 'mul')

    def __rmul__(self, o):
        return self._op(o, 'mul', True)

    def __truediv__(self, o):
        return self._op(o, 'truediv')

    def __rtruediv__(self, o):
        return self._op(o, 'truediv', True)

    def __floordiv__(self, o):
        return self._op(o, 'floordiv')

    def __rfloordiv__(self, o):
        return self._op(o, 'floordiv', True)

    def __mod__(self, o):
        return self._op(o, 'mod')

    def __rmod__(self, o):
        return self._op(o, 'mod', True)

    def __pow__(self, o):
        return self._op(o, 'pow')

    def __rpow__(self, o):
        return self._op(o, 'pow', True)

    def __neg__(self):
        return mknum(-self.t, self.dtype)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(t_abs(self.t), self.dtype)

    def __round__(self, ndigits=None):
        if ndigits is None:
            return mknum(t_round(self.t))
        f = z3.Function('round_nd', z3.RealSort(), z3.IntSort(), z3.RealSort())
        return SymNum(f(to_real(self.t), term(ndigits)), self.dtype)

    def __float__(self):
        raise Unsupported('float() of a symbolic value outside the verified text')

    def __int__(self):
        raise Unsupported('int() of a symbolic value outside the verified text')

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported('symbolic value used as a concrete index')

    def _cmp(self, o, f):
        if not isinstance(o, (SymNum, SymBool, int, float, rnp.number, rnp.bool_, fractions.Fraction)):
            return NotImplemented
        a, b = unify(self.t, term(o))
        return mknum(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return z3.simplify(self.t).hash()

    def __bool__(self):
        return core.E.decide(self.t != 0)

    def __repr__(self):
        return '<sym %s>' % (self.t,) if len(str(self.t)) < 60 else '<sym>'

    def __format__(self, s):
        return '<sym>'

    def squeeze(self):
        return self

    def item(self):
        return SymNum(self.t)

    def astype(self, dtype):
        return SymNum(cast_term(self.t, self.dtype, rnp.dtype(dtype)), rnp.dtype(dtype))

    def copy(self):
        return self

    def __array__(self, *a, **k):
        raise Unsupported('real numpy applied to a symbolic value')


numbers.Number.register(SymNum)


def apply_op(op, a, b, python=False):
    if op in ('add', 'sub', 'mul', 'floordiv', 'mod'):
        a, b = unify(a, b)
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'truediv':
        a, b = to_real(a), to_real(b)
        if python and not (z3.is_rational_value(z3.simplify(b)) and not z3.is_false(z3.simplify(b != 0))):
            if core.E.decide(b == 0):
                raise ZeroDivisionError('division by zero')
        bs = z3.simplify(b)
        if z3.is_rational_value(bs) and bs.as_fraction() != 0:
            return a * z3.RealVal(str(1 / bs.as_fraction()))
        return a / b
    if op == 'floordiv':
        if python:
            if core.E.decide(b == 0):
                raise ZeroDivisionError('division by zero')
        return t_floor_div(a, b)
    if op == 'mod':
        return a - b * t_floor_div(a, b)
    if op == 'pow':
        return t_pow(a, b)
    raise Unsupported('operator %s' % op)


def cast_term(t, src, dst):
    """Value of term t (of dtype src) after a cast to dtype dst."""
    if dst.kind == 'O':
        return t
    if dst.kind == 'b':
        return t if z3.is_bool(t) else t != 0
    if dst.kind in 'iu':
        return to_int(t)
    if dst.kind == 'f':
        r = to_real(t)
        if dst.itemsize < 8 and not (src is not None and src.kind == 'f' and src.itemsize <= dst.itemsize):
            return f32(r)
        return r
    if dst.kind == 'c':
        return to_real(t)
    raise Unsupported('cast to %s' % dst)


def f32(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == 'f32':
        return t
    if z3.is_rational_value(t):
        f = t.as_fraction()
        if f.denominator == 1 and abs(f) < 2 ** 24:
            return t
    return _F32(t)


def substitute_generic(t, pairs):
    return z3.substitute(t, *pairs)
