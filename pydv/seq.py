"""Symbolic python sequences and the replacement builtins of the verified text."""
import builtins as b
import collections.abc as abc
import numbers
import numpy as rnp
import z3
from . import core, sym
from .core import Unsupported
from .sym import SymNum, SymBool, term, mknum


class SymSeq(abc.Sequence):
    """A python sequence of symbolic length n; item(i) computes element i (i: term or int)."""

    def __init__(self, n, item, checked=True):
        self.n, self._item = n, item

    def item(self, i):
        return self._item(i)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('builtin len of a symbolic sequence')

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self._item(i) for i in b.range(self.n)])
        raise Unsupported('iteration over a symbolic sequence')

    def __getitem__(self, i):
        from .arrays import norm_index, slice_params, dt, dim
        if is_slice(i):
            start, ln, step = slice_params(i, self.n)
            it = self._item
            return type(self)(ln, lambda k: it(mknum(z3.simplify(start + step * term(k)))))
        t = norm_index(i, self.n)
        return self._item(mknum(t))

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic sequence')


class SymList(SymSeq):
    """Result of a comprehension over a symbolic sequence."""


class SymRange(SymSeq):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        n = stop - start
        if core.E.decide(term(n) <= 0):
            n = 0
        super().__init__(n, lambda k: start + k)


class PvSlice:
    def __init__(self, *args):
        s = b.slice(*args)
        self.start, self.stop, self.step = s.start, s.stop, s.step

    def indices(self, n):
        from .arrays import slice_params, dt
        st = self.step
        if st is not None and not isinstance(st, int):
            raise Unsupported('slice.indices with a symbolic step')
        if (st or 1) < 0:
            raise Unsupported('slice.indices with a negative step')
        e = core.E
        nt = term(n)

        def clamp(v, dflt):
            if v is None:
                return dflt
            t = term(v)
            if e.decide(t < 0):
                t = t + nt
                return z3.IntVal(0) if e.decide(t < 0) else t
            return nt if e.decide(t > nt) else t
        a = clamp(self.start, z3.IntVal(0))
        o = clamp(self.stop, nt)
        return mknum(a), mknum(o), st or 1


def is_slice(x):
    return isinstance(x, (b.slice, PvSlice))


# ------------------------------------------------------------------ replacement builtins
def pv_len(x):
    from .arrays import SymArray, dim
    if isinstance(x, SymArray):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, b.list) and getattr(x, 'loops', None):
        return x.positions()[0]
    if isinstance(x, (list, tuple, dict, set, str, bytes, frozenset, b.range)):
        return b.len(x)
    f = getattr(type(x), '__len__', None)
    if f is None:
        return b.len(x)
    return f(x)


def pv_isinstance(x, classes):
    if not isinstance(classes, tuple):
        classes = (classes,)
    return b.any(_isinst(x, c) for c in classes)


def _isinst(x, c):
    if isinstance(c, tuple):
        return b.any(_isinst(x, k) for k in c)
    c = UNWRAP.get(c, c)
    if isinstance(x, SymNum):
        if c in (object, SymNum, numbers.Number):
            return True
        if x.isint:
            if x.dtype is None:
                return c in (int, numbers.Integral, numbers.Real, numbers.Rational)
            return c in (rnp.integer, rnp.number, rnp.generic, x.dtype.type, rnp.signedinteger,
                         numbers.Integral, numbers.Real)
        if x.dtype is None:
            return c in (float, numbers.Real)
        return c in (rnp.floating, rnp.number, rnp.generic, x.dtype.type, rnp.inexact, numbers.Real) or \
            (c is float and x.dtype == sym.F64)
    if isinstance(x, SymBool):
        if x.dtype is None:
            return c in (bool, int, object, SymBool)
        return c in (rnp.bool_, rnp.generic, object, SymBool)
    if c is b.slice:
        return is_slice(x)
    if c is list and isinstance(x, SymList):
        return True
    try:
        return b.isinstance(x, c)
    except TypeError:
        return b.isinstance(x, c)


def pv_issubclass(x, c):
    f = lambda k: UNWRAP.get(k, k) if isinstance(k, b.type) else k
    if not b.isinstance(x, b.type):
        raise TypeError('issubclass() arg 1 must be a class')
    return b.issubclass(f(x), tuple(f(k) for k in c) if isinstance(c, tuple) else f(c))


def pv_range(*args):
    if b.all(isinstance(a, int) for a in args):
        return b.range(*args)
    args = [a if not isinstance(a, rnp.integer) else int(a) for a in args]
    if b.len(args) == 1:
        args = [0, args[0]]
    if b.len(args) == 3:
        if args[2] == 1:
            args = args[:2]
        else:
            raise Unsupported('symbolic range with a step')
    return SymRange(*args)


class _TMeta(type):
    def __instancecheck__(cls, x):
        return _isinst(x, cls._py)

    def __subclasscheck__(cls, c):
        return b.issubclass(UNWRAP.get(c, c), cls._py)

    def __eq__(cls, o):
        return o is cls or o is cls._py

    def __hash__(cls):
        return hash(cls._py)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)


def _int(x=0, *a):
    if isinstance(x, SymNum):
        return mknum(sym.to_int(x.t))
    if isinstance(x, SymBool):
        return mknum(sym.to_int(x.t))
    ar = getattr(x, '_as_scalar', None)
    if ar is not None:
        return _int(ar())
    return b.int(x, *a)


def _float(x=0.0):
    if isinstance(x, (SymNum, SymBool)):
        return SymNum(sym.to_real(x.t))
    ar = getattr(x, '_as_scalar', None)
    if ar is not None:
        return _float(ar())
    return b.float(x)


def _bool(x=False):
    if isinstance(x, SymBool):
        return SymBool(x.t)
    ar = getattr(x, '_as_scalar', None)
    if ar is not None and x.ndim == 0:
        return _bool(ar())
    return b.bool(x)


class PvInt(metaclass=_TMeta):
    _py = int
    _conv = staticmethod(_int)


class PvFloat(metaclass=_TMeta):
    _py = float
    _conv = staticmethod(_float)


class PvBool(metaclass=_TMeta):
    _py = bool
    _conv = staticmethod(_bool)


def _list(x=()):
    if isinstance(x, SymSeq):
        return x if not isinstance(x.n, int) else [x.item(i) for i in b.range(x.n)]
    if isinstance(x, b.list) and getattr(x, 'loops', None):
        return x.as_seq()
    from .arrays import SymArray
    if isinstance(x, SymArray) and not isinstance(x.shape[0], int):
        src = x.copy()
        return SymList(x.shape[0], lambda i: src[i])
    return b.list(x)


class PvList(metaclass=_TMeta):
    _py = list
    _conv = staticmethod(_list)


def _tuple(x=()):
    if isinstance(x, SymSeq):
        return x if not isinstance(x.n, int) else tuple(x.item(i) for i in b.range(x.n))
    return b.tuple(x)


class PvTuple(metaclass=_TMeta):
    _py = tuple
    _conv = staticmethod(_tuple)


UNWRAP = {PvInt: int, PvFloat: float, PvBool: bool, PvSlice: b.slice, PvList: list, PvTuple: tuple}


class SymZip(SymSeq):
    pass


def sym_iter(x):
    """A SymSeq for x when x has a symbolic length, else None."""
    from .arrays import SymArray
    if isinstance(x, SymSeq):
        return x if not isinstance(x.n, int) else None
    if isinstance(x, b.list) and getattr(x, 'loops', None):
        return x.as_seq()
    if isinstance(x, SymArray) and x.ndim and not isinstance(x.shape[0], int):
        src = x.copy()
        return SymSeq(x.shape[0], lambda i: src[i])
    if not isinstance(x, (str, bytes, list, tuple, dict)) and isinstance(x, abc.Sequence):
        n = pv_len(x)
        if not isinstance(n, int):
            return SymSeq(n, lambda i: x[i])
    return None


def pv_zip(*seqs):
    ss = [sym_iter(s) for s in seqs]
    if b.all(s is None for s in ss):
        return b.zip(*seqs)
    if b.any(s is None for s in ss):
        raise Unsupported('zip of symbolic and concrete sequences')
    from .arrays import dims_equal
    n = ss[0].n
    for s in ss[1:]:
        if not dims_equal(n, s.n):
            if s.n < n:
                n = s.n
    return SymZip(n, lambda i: tuple(s.item(i) for s in ss))


def pv_enumerate(x, start=0):
    s = sym_iter(x)
    if s is None:
        return b.enumerate(x, start)
    r = SymZip(s.n, lambda i: (i + start, s.item(i)))
    if start == 0 and (isinstance(s, SymList) or getattr(s, 'grown', None) is not None):
        r.over, r.remake = s if isinstance(s, SymList) else s.grown, lambda i, x: (i, x)
    return r


def pv_max(*a, **k):
    return _ext(b.max, True, *a, **k)


def pv_min(*a, **k):
    return _ext(b.min, False, *a, **k)


def _ext(f, mx, *a, **k):
    if k:
        return f(*a, **k)
    xs = list(a[0]) if b.len(a) == 1 else list(a)
    if not b.any(isinstance(x, SymNum) for x in xs):
        return f(*a)
    r = xs[0]
    for x in xs[1:]:
        c = (x > r) if mx else (x < r)
        if c:
            r = x
    return r


def pv_sum(xs, start=0):
    s = sym_iter(xs)
    if s is not None:
        raise Unsupported('builtin sum of a symbolic sequence')
    return b.sum(xs, start)


def pv_all(xs):
    if sym_iter(xs) is not None:
        from .loops import symloop
        return symloop(xs, lambda x: ('end',) if x else ('ret', False)) == ('end',)
    for x in xs:
        if not x:
            return False
    return True


def pv_any(xs):
    if sym_iter(xs) is not None:
        from .loops import symloop
        return symloop(xs, lambda x: ('ret', True) if x else ('end',)) != ('end',)
    for x in xs:
        if x:
            return True
    return False


def pv_abs(x):
    return abs(x)


def pv_iter(x, *a):
    return b.iter(x, *a)


def pv_sorted(xs, **k):
    if sym_iter(xs) is not None:
        from .arrays import SymArray
        from . import npstub
        if not isinstance(xs, SymArray) or xs.ndim != 1 or k:
            raise Unsupported('sorted of a symbolic sequence')
        r = npstub.sort(xs)
        return SymList(r.shape[0], lambda i: mknum(r.at(term(i))))
    xs = b.list(xs)
    if b.len(xs) <= 1:
        return xs
    return b.sorted(xs, **k)


def pv_print(*a, **k):
    pass


def pv_str(x=''):
    return b.str(x)


class PvBoolMethodError(Exception):
    pass


def coerce_bool(x):
    if isinstance(x, SymBool):
        return core.E.decide(x.t)
    return b.bool(x)


def bool_method(f):
    import functools

    @functools.wraps(f)
    def g(self):
        return coerce_bool(f(self))
    return g


BUILTINS = dict(len=pv_len, isinstance=pv_isinstance, issubclass=pv_issubclass, range=pv_range,
                int=PvInt, float=PvFloat, bool=PvBool, list=PvList, tuple=PvTuple, zip=pv_zip, enumerate=pv_enumerate,
                max=pv_max, min=pv_min, sum=pv_sum, all=pv_all, any=pv_any, slice=PvSlice,
                sorted=pv_sorted, print=pv_print)
