"""Contracts of the numpy functions the package uses (trusted, differentially tested)."""
import builtins as b
import collections.abc as abc
import numbers
import types
import numpy as rnp
import z3
from . import core, sym, seq, arrays
from .core import Unsupported
from .sym import SymNum, SymBool, term, bterm, mknum, to_real, F64, I64, B1, OBJ
from .arrays import (SymArray, Masked, dim, dt, dims_equal, ew, kind_of, result_dtype, t_sum, t_forall,
                     t_extreme, compress, _syn_eq, prod_dims, norm_index, slice_params, is_int_scalar, memo,
                     mask_key, broadcast_shapes, bcast_reader)
from .seq import SymSeq, pv_len, UNWRAP, is_slice

ndarray = SymArray
float64, float32, float16, int64, int32, int8, uint8 = (rnp.float64, rnp.float32, rnp.float16, rnp.int64,
                                                        rnp.int32, rnp.int8, rnp.uint8)
complex128 = rnp.complex128
intp = rnp.intp
number, integer, floating, generic = rnp.number, rnp.integer, rnp.floating, rnp.generic
bool_, object_ = rnp.bool_, rnp.object_
bool = rnp.bool_           # np.bool (numpy < 1.24)
object = rnp.object_
newaxis = None
nan = SymNum(sym.NAN, None)
inf = SymNum(sym.INF, None)
pi = SymNum(z3.Real('PI'), None)


def dtype(x):
    x = UNWRAP.get(x, x)
    if isinstance(x, rnp.dtype):
        return x
    if x is None:
        return F64
    return rnp.dtype(x)


def _issub(x):
    x = UNWRAP.get(x, x)
    return x


def issubdtype(a, c):
    return rnp.issubdtype(_issub(a), _issub(c))


def result_type(*a):
    return rnp.result_type(*[dtype(x) for x in a])


class _PrintOptions:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def printoptions(**k):
    return _PrintOptions()


class _FInfo:
    eps = 2.220446049250313e-16
    tiny = 2.2250738585072014e-308
    max = 1.7976931348623157e+308


def finfo(x):
    return _FInfo()


def ndim(x):
    return asarray(x).ndim


def shape(x):
    return asarray(x).shape


def size(x):
    return asarray(x).size


def isscalar(x):
    return isinstance(x, (SymNum, SymBool, numbers.Number, str, rnp.generic))


# ---------------------------------------------------------------- construction
def _nested(x):
    """(shape, elem(idx...)->term, dtype, fresh) of a nested sequence / scalar / array."""
    if isinstance(x, SymArray):
        return x.shape, x.snap(), x.dtype
    if isinstance(x, (SymNum, SymBool, numbers.Number, rnp.generic)):
        t = term(x)
        return (), (lambda: t), kind_of(x)[0]
    if isinstance(x, SymSeq) or (isinstance(x, abc.Sequence) and not isinstance(x, (str, bytes))):
        n = pv_len(x)
        if not isinstance(n, int):
            if core.E.decide(dt(n) <= 0):
                return (0,), (lambda i: z3.RealVal(0)), F64
            g = x.item if isinstance(x, SymSeq) else (lambda i: x[i])
            # element shape and dtype from a generic element
            k = z3.Int(core.E.fresh('gen'))
            core.E.add(z3.And(k >= 0, k < dt(n)))
            s0, e0, d0 = _nested(g(mknum(k)))
            for d in s0:
                if not isinstance(d, int) and _mentions(d.t, k):
                    raise Unsupported('ragged symbolic sequence')
            return (n,) + tuple(s0), (lambda i, *r: _nested(g(mknum(i)))[1](*r)), d0
        items = [x.item(i) for i in range(n)] if isinstance(x, SymSeq) else [x[i] for i in range(n)]
        if not items:
            return (0,), (lambda i: z3.RealVal(0)), F64
        parts = [_nested(i) for i in items]
        s0 = parts[0][0]
        for s, _, _ in parts[1:]:
            if len(s) != len(s0) or not b.all(dims_equal(p, q) for p, q in zip(s, s0)):
                raise ValueError('setting an array element with a sequence.')
        d = parts[0][2]
        for p in parts[1:]:
            d = rnp.result_type(d, p[2])
        els = [p[1] for p in parts]
        ds = [p[2] for p in parts]

        def elem(i, *r):
            if z3.is_int_value(i):
                k = i.as_long()
                if k < 0 or k >= len(els):
                    k = 0
                return sym.cast_term(els[k](*r), ds[k], d)
            t = sym.cast_term(els[-1](*r), ds[-1], d)
            for k in reversed(range(len(els) - 1)):
                t = z3.If(i == k, sym.cast_term(els[k](*r), ds[k], d), t)
            return t
        return (n,) + tuple(s0), elem, d
    if x is None or isinstance(x, str):
        raise ValueError('invalid array element %r' % (x,))
    if hasattr(x, '__array_interface__'):
        raise Unsupported('real array')
    if callable(x) or not isinstance(x, abc.Iterable):
        raise Unsupported('np.array of %s' % type(x).__name__)
    return _nested(list(x))


def _mentions(t, k):
    from .arrays import _contains
    return _contains(t, k)


def _is_objects(x):
    if isinstance(x, SymSeq):
        return True
    return isinstance(x, (list, tuple))


def array(x, dtype=None, ndmin=0, copy=True, order=None):
    D = globals()['dtype'](dtype) if dtype is not None else None
    if D is not None and D.kind == 'O':
        return _object_array(x)
    if isinstance(x, SymArray):
        r = x.astype(D) if D is not None and D != x.dtype else x.copy()
    else:
        s, e, d0 = _nested(x)
        D2 = D if D is not None else d0
        if d0.kind == 'O':
            raise Unsupported('object array')
        r = SymArray(s, D2, (lambda *i: sym.cast_term(e(*i), d0, D2)) if D2 != d0 else e)
    while r.ndim < ndmin:
        r = r[None]
        if not isinstance(x, SymArray):
            pass
    return r


def _object_array(x):
    if isinstance(x, SymArray):
        return x.copy()
    if isinstance(x, SymSeq) and not isinstance(x.n, int):
        it = x.item
        return SymArray((x.n,), OBJ, lambda i: it(mknum(i)))
    items = list(x)

    def elem(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return items[i.as_long()]
        for k in range(len(items)):
            if core.E.decide(i == k):
                return items[k]
        raise core.PathAbort()
    return SymArray((len(items),), OBJ, elem)


def asarray(x, dtype=None):
    if isinstance(x, SymArray):
        D = globals()['dtype'](dtype) if dtype is not None else None
        if D is None or D == x.dtype:
            return x
        return x.astype(D)
    return array(x, dtype=dtype)


asanyarray = ascontiguousarray = asarray


def _shape(s):
    if isinstance(s, (int, SymNum, rnp.integer)):
        s = (s,)
    s = tuple(dim(d) for d in s)
    for d in s:
        if isinstance(d, int):
            if d < 0:
                raise ValueError('negative dimensions are not allowed')
        elif core.E.decide(d.t < 0):
            raise ValueError('negative dimensions are not allowed')
    return s


def _const(v, dtp):
    dtp = dtype(dtp)
    t = sym.cast_term(z3.IntVal(v), I64, dtp)
    return t, dtp


def zeros(shape, dtype=None):
    t, d = _const(0, dtype)
    return SymArray(_shape(shape), d, lambda *i: t)


def ones(shape, dtype=None):
    t, d = _const(1, dtype)
    return SymArray(_shape(shape), d, lambda *i: t)


def full(shape, v, dtype=None):
    d = globals()['dtype'](dtype) if dtype is not None else kind_of(v)[0]
    t = sym.cast_term(term(v), kind_of(v)[0], d)
    return SymArray(_shape(shape), d, lambda *i: t)


def empty(shape, dtype=None):
    d = globals()['dtype'](dtype)
    s = _shape(shape)
    f = z3.Function(core.E.fresh('uninit'), *([z3.IntSort()] * len(s) + [
        z3.RealSort() if d.kind == 'f' else (z3.BoolSort() if d.kind == 'b' else z3.IntSort())]))
    return SymArray(s, d, lambda *i: f(*i))


def zeros_like(a, dtype=None):
    return zeros(a.shape, a.dtype if dtype is None else dtype)


def eye(n, dtype=None):
    d = globals()['dtype'](dtype)
    one, zero = _const(1, d)[0], _const(0, d)[0]
    return SymArray(_shape((n, n)), d, lambda i, j: z3.If(i == j, one, zero))


identity = eye


def ones_like(a, dtype=None):
    return ones(a.shape, a.dtype if dtype is None else dtype)


def empty_like(a, dtype=None):
    return empty(a.shape, a.dtype if dtype is None else dtype)


def full_like(a, v, dtype=None):
    return full(a.shape, v, a.dtype if dtype is None else dtype)


def arange(*args, dtype=None):
    start, stop = (0, args[0]) if len(args) == 1 else args[:2]
    if len(args) == 3 and args[2] != 1:
        raise Unsupported('arange with a step')
    n = stop - start
    if not isinstance(n, int):
        if not n.isint:
            raise Unsupported('real arange')
        if n < 0:
            n = 0
    elif n < 0:
        n = 0
    st = term(start)
    return SymArray((n,), I64 if dtype is None else dtype, lambda i: sym.cast_term(st + i, I64, globals()['dtype'](
        dtype or 'int64')))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    core.E.trusted.add('numpy.linspace')
    if isinstance(num, SymNum) and not num.isint:
        raise TypeError('object cannot be interpreted as an integer')
    if num < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % num)
    a, o = to_real(term(start)), to_real(term(stop))
    nt = term(num)
    one = isinstance(num, int) and num == 1 or (not isinstance(num, int) and core.E.decide(nt == 1))
    if one:
        return SymArray((1,), F64, lambda i: a)
    if not endpoint:
        return SymArray((num,), F64, lambda i: a + (o - a) * to_real(i) / to_real(nt))
    if z3.is_int_value(z3.simplify(nt)):
        d = z3.simplify(nt - 1).as_long()
        step = z3.simplify((o - a) / z3.RealVal(d)) if d > 0 else o - a
    else:
        e = core.E
        key = ('linspace', a.get_id(), a, o.get_id(), o, nt.get_id(), nt)
        step = e.memo.get(key)
        if step is None:
            step = e.memo[key] = z3.Real(e.fresh('step'))
            e.add(z3.Implies(nt > 1, step * (z3.ToReal(nt) - 1) == o - a))
    return SymArray((num,), F64, lambda i: a + to_real(i) * step)


# ---------------------------------------------------------------- joining
def concatenate(seqs, axis=0):
    if isinstance(seqs, SymSeq) and not isinstance(seqs.n, int):
        raise Unsupported('concatenation of a symbolic number of arrays')
    arrs = [asarray(s) for s in seqs]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    for a in arrs:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
    axis = axis % nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not dims_equal(arrs[0].shape[k], a.shape[k]):
                raise ValueError('all the input array dimensions for the concatenation axis must match exactly')
    d = arrs[0].dtype
    for a in arrs[1:]:
        d = rnp.result_type(d, a.dtype)
    fs = [a.snap() for a in arrs]
    ofs, tot = [], z3.IntVal(0)
    for a in arrs:
        ofs.append(tot)
        tot = z3.simplify(tot + dt(a.shape[axis]))
    shp = list(arrs[0].shape)
    shp[axis] = dim(tot)

    def elem(*idx):
        i = idx[axis]
        t = None
        for k in reversed(range(len(arrs))):
            j = list(idx)
            j[axis] = z3.simplify(i - ofs[k])
            v = sym.cast_term(fs[k](*j), arrs[k].dtype, d)
            t = v if t is None else z3.If(i < ofs[k + 1], v, t)
        return z3.simplify(t) if z3.is_int_value(i) else t
    return SymArray(shp, d, elem)


def hstack(seqs):
    arrs = [asarray(s) for s in seqs]
    arrs = [a.reshape(1) if a.ndim == 0 else a for a in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(seqs):
    if isinstance(seqs, SymSeq) and not isinstance(seqs.n, int):
        r = stack(seqs, axis=0)
        if r.ndim != 2:
            raise Unsupported('vstack of symbolic sequence')
        return r
    arrs = [asarray(s) for s in seqs]
    arrs = [a[None] if a.ndim == 1 else (a.reshape(1, 1) if a.ndim == 0 else a) for a in arrs]
    return concatenate(arrs, axis=0)


def column_stack(seqs):
    arrs = [asarray(s) for s in seqs]
    return concatenate([a[:, None] if a.ndim == 1 else a for a in arrs], axis=1)


def stack(seqs, axis=0):
    if isinstance(seqs, SymSeq) and not isinstance(seqs.n, int):
        a = array(seqs)
        if axis % a.ndim == 0:
            return a
        perm = list(range(1, a.ndim))
        perm.insert(axis % a.ndim, 0)
        return a.transpose(perm).copy()
    arrs = [asarray(s) for s in seqs]
    if not arrs:
        raise ValueError('need at least one array to stack')
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim or not b.all(dims_equal(p, q) for p, q in zip(a.shape, arrs[0].shape)):
            raise ValueError('all input arrays must have the same shape')
    nd = arrs[0].ndim + 1
    axis = axis % nd
    sl = (slice(None),) * axis + (None,)
    return concatenate([a[sl] for a in arrs], axis=axis)


def append(arr, values, axis=None):
    if axis is None:
        arr, values, axis = ravel(arr), ravel(values), 0
    return concatenate((arr, values), axis=axis)


def ravel(a):
    return asarray(a).reshape(-1)


def reshape(a, shp, order='C'):
    return asarray(a).reshape(*(shp if isinstance(shp, (tuple, list)) else (shp,)))


def transpose(a, axes=None):
    return asarray(a).transpose(*(axes or ()))


def moveaxis(a, src, dst):
    a = asarray(a)
    perm = [k for k in range(a.ndim) if k != src % a.ndim]
    perm.insert(dst % a.ndim, src % a.ndim)
    return a.transpose(perm)


def swapaxes(a, i, j):
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return a.transpose(p)


def expand_dims(a, axis):
    a = asarray(a)
    axis = axis % (a.ndim + 1)
    return a[(slice(None),) * axis + (None,)]


def atleast_1d(a):
    a = asarray(a)
    return a.reshape(1) if a.ndim == 0 else a


def atleast_2d(a):
    a = atleast_1d(a)
    return a[None] if a.ndim == 1 else a


def squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


def copy(a):
    return asarray(a).copy()


def flip(a, axis=None):
    a = asarray(a)
    axes = list(range(a.ndim)) if axis is None else [axis % a.ndim]
    sh = a.shape
    return a.view(sh, lambda *i: tuple(z3.simplify(dt(sh[k]) - 1 - x) if k in axes else x for k, x in enumerate(i)))


def flipud(a):
    return flip(a, 0)


def fliplr(a):
    return flip(a, 1)


def roll(a, shift, axis=None):
    raise Unsupported('np.roll')


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if n != 1:
        raise Unsupported('np.diff n>1')
    if a.ndim == 0:
        raise ValueError('diff requires input that is at least one dimensional')
    axis = axis % a.ndim
    lo = [slice(None)] * a.ndim
    hi = [slice(None)] * a.ndim
    lo[axis], hi[axis] = slice(None, -1), slice(1, None)
    return a[tuple(hi)] - a[tuple(lo)]


def take(a, idx, axis=None):
    if axis is None:
        return ravel(a)[idx]
    return a[(slice(None),) * axis + (idx,)]


# ---------------------------------------------------------------- elementwise
def _ew1(f, d=None):
    def g(x, dtype=None, out=None):
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        if isinstance(x, SymArray):
            rd = d(x.dtype) if d else x.dtype
            return ew(f, [x], rd)
        t = f(term(x))
        dd = kind_of(x)[0]
        return SymBool(t, B1) if z3.is_bool(t) else SymNum(t, d(dd) if d else dd)
    return g


_flt = lambda d: d if d.kind in 'fc' else F64
sqrt = _ew1(sym.t_sqrt, _flt)
sin = _ew1(sym.t_sin, _flt)
cos = _ew1(sym.t_cos, _flt)
arccos = _ew1(sym.t_arccos, _flt)
isnan = _ew1(lambda t: z3.BoolVal(False) if not z3.is_real(t) else t == sym.NAN, lambda d: B1)
isinf = _ew1(lambda t: z3.BoolVal(False) if not z3.is_real(t) else z3.Or(t == sym.INF, t == -sym.INF), lambda d: B1)
isfinite = _ew1(lambda t: z3.BoolVal(True) if not z3.is_real(t) else z3.And(t != sym.NAN, t != sym.INF, t != -sym.INF),
                lambda d: B1)
abs = absolute = fabs = _ew1(sym.t_abs)
negative = _ew1(lambda t: -t)
square = _ew1(lambda t: t * t)
logical_not = _ew1(lambda t: z3.Not(bterm(t)), lambda d: B1)
invert = _ew1(lambda t: z3.Not(t))


def _sgn(t):
    one, zero = (z3.RealVal(1), z3.RealVal(0)) if z3.is_real(t) else (z3.IntVal(1), z3.IntVal(0))
    return z3.If(t > 0, one, z3.If(t < 0, -one, zero))


sign = _ew1(_sgn)
floor = _ew1(lambda t: to_real(z3.ToInt(to_real(t))), _flt)
rint = round_ = around = _ew1(lambda t: to_real(sym.t_round(t)), _flt)


def _ew2(f, d=None, op='add'):
    def g(x, y, dtype=None, out=None):
        x = asarray(x) if isinstance(x, (list, tuple)) else x
        y = asarray(y) if isinstance(y, (list, tuple)) else y
        ff = lambda p, q: f(*sym.unify(p, q)) if d is not B1 or True else None
        if isinstance(x, SymArray) or isinstance(y, SymArray):
            return ew(ff, [x, y], d or result_dtype(x, y, op))
        t = ff(term(x), term(y))
        return SymBool(t, B1) if z3.is_bool(t) else SymNum(t, d or result_dtype(x, y, op))
    return g


minimum = _ew2(lambda x, y: z3.If(x <= y, x, y))
maximum = _ew2(lambda x, y: z3.If(x >= y, x, y))
fmin, fmax = minimum, maximum
add = _ew2(lambda x, y: x + y)
subtract = _ew2(lambda x, y: x - y)
multiply = _ew2(lambda x, y: x * y)
divide = true_divide = _ew2(lambda x, y: sym.apply_op('truediv', x, y), None, 'truediv')
equal = _ew2(lambda x, y: x == y, B1)
not_equal = _ew2(lambda x, y: x != y, B1)
less = _ew2(lambda x, y: x < y, B1)
less_equal = _ew2(lambda x, y: x <= y, B1)
greater = _ew2(lambda x, y: x > y, B1)
greater_equal = _ew2(lambda x, y: x >= y, B1)


def _ewb(f):
    def g(x, y):
        x = asarray(x) if isinstance(x, (list, tuple)) else x
        y = asarray(y) if isinstance(y, (list, tuple)) else y
        if isinstance(x, SymArray) or isinstance(y, SymArray):
            return ew(lambda p, q: f(bterm(p), bterm(q)), [x, y], B1)
        return SymBool(f(bterm(x), bterm(y)), B1)
    return g


logical_and = _ewb(z3.And)
logical_or = _ewb(z3.Or)


def power(x, y):
    return x ** y


def hypot(x, y):
    return sqrt(x * x + y * y)


def isclose(a, c, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = to_real(term(rtol)), to_real(term(atol))

    def f(p, q):
        p, q = to_real(p), to_real(q)
        return sym.t_abs(p - q) <= at + rt * sym.t_abs(q)
    a = asarray(a) if isinstance(a, (list, tuple)) else a
    c = asarray(c) if isinstance(c, (list, tuple)) else c
    if isinstance(a, SymArray) or isinstance(c, SymArray):
        return ew(f, [a, c], B1)
    return SymBool(f(term(a), term(c)), B1)


def allclose(a, c, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all(isclose(a, c, rtol, atol))


def array_equal(a, c):
    a, c = asarray(a), asarray(c)
    if a.ndim != c.ndim or not b.all(dims_equal(p, q) for p, q in zip(a.shape, c.shape)):
        return False
    return all(a == c)


def where(cond, *args):
    if not args:
        return nonzero(cond)
    x, y = [asarray(a) if isinstance(a, (list, tuple)) else a for a in args]
    rd = result_dtype(x, y)

    def f(c, p, q):
        p, q = sym.unify(p, q)
        return z3.If(c, p, q)
    if not b.any(isinstance(a, SymArray) for a in (cond, x, y)):
        return SymNum(f(bterm(cond), term(x), term(y)), rd)
    return ew(f, [cond, x, y], rd)


def clip(a, lo, hi):
    return minimum(maximum(a, lo), hi)


# ---------------------------------------------------------------- reductions
def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, tuple):
        return tuple(sorted(x % a.ndim for x in axis))
    if not -a.ndim <= axis < a.ndim:
        raise rnp.exceptions.AxisError(axis, a.ndim) if hasattr(rnp, 'exceptions') else IndexError('axis')
    return (axis % a.ndim,)


def _reduce(a, axis, red, d, keepdims=False):
    axes = _axes(a, axis)
    f = a.snap()
    keep = [k for k in range(a.ndim) if k not in axes]

    def elem(*idx):
        def go(k, cur):
            if k == len(axes):
                full = [None] * a.ndim
                for p, q in zip(keep, idx):
                    full[p] = q
                for p, q in zip(axes, cur):
                    full[p] = q
                return f(*full)
            return red(a.shape[axes[k]], lambda i: go(k + 1, cur + [i]))
        return go(0, [])
    if not keep:
        t = elem()
        r = SymBool(t, B1) if z3.is_bool(t) else SymNum(t, d)
        if keepdims:
            return SymArray((1,) * a.ndim, d, lambda *i: t)
        return r
    r = SymArray([a.shape[k] for k in keep], d, elem)
    if keepdims:
        for x in axes:
            r = expand_dims(r, x)
    return r


def sum(a, axis=None, keepdims=False, dtype=None):
    a = asarray(a)
    d = I64 if a.dtype.kind in 'bi' else a.dtype
    return _reduce(a, axis, t_sum, d, keepdims)


def any(a, axis=None, keepdims=False):
    a = _asbool(a)
    return _reduce(a, axis, lambda n, f: t_forall(n, f, exists=True), B1, keepdims)


def all(a, axis=None, keepdims=False):
    a = _asbool(a)
    return _reduce(a, axis, lambda n, f: t_forall(n, f), B1, keepdims)


def _asbool(a):
    if isinstance(a, (SymBool, SymNum)):
        t = bterm(a)
        return SymArray((), B1, lambda: t)
    a = asarray(a)
    if a.dtype.kind != 'b':
        a = a.astype(B1)
    return a


def count_nonzero(a, axis=None):
    return sum(_asbool(a), axis=axis)


def mean(a, axis=None):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return sum(a, axis) / n


def _ext(mx):
    def g(a, axis=None, keepdims=False):
        a = asarray(a)
        for k in _axes(a, axis):
            if dims_equal(a.shape[k], 0):
                raise ValueError('zero-size array to reduction operation which has no identity')
        return _reduce(a, axis, lambda n, f: t_extreme(n, f, mx), a.dtype, keepdims)
    return g


max = amax = _ext(True)
min = amin = _ext(False)


def ptp(a, axis=None):
    return max(a, axis) - min(a, axis)


def prod(a, axis=None):
    if isinstance(a, (tuple, list)):
        return prod_dims(a) if a else 1.0
    raise Unsupported('np.prod of an array')


def cumsum(a, axis=None):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('cumsum of n-d array')
    core.E.trusted.add('numpy.cumsum: c[0] = a[0], c[i] = c[i-1] + a[i], c[n-1] = sum')
    f = a.snap()
    n = a.shape[0]
    if isinstance(n, int) and n <= 12:
        def elem(i):
            if z3.is_int_value(i):
                r = f(z3.IntVal(0))
                for k in range(1, i.as_long() + 1):
                    r = r + f(z3.IntVal(k))
                return r
            r = f(z3.IntVal(0))
            acc = r
            for k in range(1, n):
                acc = acc + f(z3.IntVal(k))
                r = z3.If(i == k, acc, r)
            return r
        return SymArray((n,), a.dtype if a.dtype.kind != 'b' else I64, elem)
    body = f(sym.generic(15))
    key = ('cumsum', body.get_id(), dt(n).get_id())
    if key not in core.E.memo:
        core.E.memo[key] = (body, z3.Function(core.E.fresh('cumsum'), z3.IntSort(), body.sort()))
        c = core.E.memo[key][1]
        tot = t_sum(n, f)
        core.E.add(z3.Implies(dt(n) > 0, c(z3.simplify(dt(n) - 1)) == tot))
        core.E.add(z3.Implies(dt(n) > 0, c(z3.IntVal(0)) == f(z3.IntVal(0))))
        core.E.memo.setdefault('cumsums', []).append((c, f, n))
    c = core.E.memo[key][1]

    def elem(i):
        e = core.E
        if not sym.has_bound(i):
            e.axiom(('cs', c.name(), i.get_id(), i), lambda: [
                z3.Implies(z3.And(i >= 1, i < dt(n)), c(i) == c(z3.simplify(i - 1)) + f(i)),
                z3.Implies(z3.And(i >= 0, i + 1 < dt(n)), c(z3.simplify(i + 1)) == c(i) + f(z3.simplify(i + 1)))])
        return c(i)
    return SymArray((n,), a.dtype, elem)


def dot(a, c):
    if not isinstance(a, SymArray) and not isinstance(c, SymArray):
        return a * c
    a, c = asarray(a), asarray(c)
    if a.ndim == 0 or c.ndim == 0:
        return a * c
    rd = rnp.result_type(a.dtype, c.dtype)
    f, g = a.snap(), c.snap()
    mul = lambda x, y: sym.apply_op('mul', x, y)
    if a.ndim == 1 and c.ndim == 1:
        if not dims_equal(a.shape[0], c.shape[0]):
            raise ValueError('shapes not aligned')
        return SymNum(t_sum(a.shape[0], lambda i: mul(f(i), g(i))), rd)
    if a.ndim == 2 and c.ndim == 1:
        if not dims_equal(a.shape[1], c.shape[0]):
            raise ValueError('shapes not aligned')
        return SymArray((a.shape[0],), rd, lambda i: t_sum(a.shape[1], lambda k: mul(f(i, k), g(k))))
    if a.ndim == 1 and c.ndim == 2:
        if not dims_equal(a.shape[0], c.shape[0]):
            raise ValueError('shapes not aligned')
        return SymArray((c.shape[1],), rd, lambda j: t_sum(a.shape[0], lambda k: mul(f(k), g(k, j))))
    if a.ndim == 2 and c.ndim == 2:
        if not dims_equal(a.shape[1], c.shape[0]):
            raise ValueError('shapes not aligned')
        return SymArray((a.shape[0], c.shape[1]), rd,
                        lambda i, j: t_sum(a.shape[1], lambda k: mul(f(i, k), g(k, j))))
    raise Unsupported('dot of n-d arrays')


matmul = dot


def inner(a, c):
    return dot(a, c)


def vdot(a, c):
    return dot(a, c)


def outer(a, c):
    return asarray(a)[:, None] * asarray(c)[None, :]


def cross(a, c):
    a, c = asarray(a), asarray(c)
    raise Unsupported('np.cross')


def einsum(spec, *ops):
    core.E.trusted.add('numpy.einsum: sum over the repeated labels of the products')
    lhs, rhs = spec.replace(' ', '').split('->')
    labels = lhs.split(',')
    ops = [asarray(o) for o in ops]
    if len(labels) != len(ops):
        raise ValueError('einsum operands')
    size = {}
    for lab, o in zip(labels, ops):
        if len(lab) != o.ndim:
            raise ValueError('einsum labels')
        for c, d in zip(lab, o.shape):
            if c in size:
                if isinstance(size[c], int) and size[c] == 1:
                    size[c] = d
                elif isinstance(d, int) and d == 1:
                    pass
                elif not dims_equal(size[c], d):
                    if not isinstance(size[c], int) and core.E.decide(dt(size[c]) == 1):
                        size[c] = d
                    elif not isinstance(d, int) and core.E.decide(dt(d) == 1):
                        pass
                    else:
                        raise ValueError('operands could not be broadcast together')
            else:
                size[c] = d
    rd = ops[0].dtype
    for o in ops[1:]:
        rd = rnp.result_type(rd, o.dtype)
    fs = [o.snap() for o in ops]
    one = [[isinstance(d, int) and d == 1 or not _syn_eq(d, size[c]) and dims_equal(d, 1) for c, d in zip(lab, o.shape)]
           for lab, o in zip(labels, ops)]
    summed = [c for c in dict.fromkeys(''.join(labels)) if c not in rhs]

    def elem(*idx):
        env = dict(zip(rhs, idx))

        def go(k):
            if k == len(summed):
                r = None
                for lab, f, on in zip(labels, fs, one):
                    x = f(*[z3.IntVal(0) if u else env[c] for c, u in zip(lab, on)])
                    r = x if r is None else sym.apply_op('mul', r, x)
                return r
            c = summed[k]

            def body(i):
                env[c] = i
                return go(k + 1)
            return t_sum(size[c], body)
        return go(0)
    if not rhs:
        return SymNum(elem(), rd)
    return SymArray([size[c] for c in rhs], rd, elem)


# ---------------------------------------------------------------- searching, sorting
def _idxarr(shape, elem, rng, member=None):
    r = SymArray(shape, I64, elem)
    r.known_range = rng
    if member is not None:
        r.member = member
    return r


def nonzero(a):
    a = _asbool(asarray(a))
    info = compress(a)
    if a.ndim == 1:
        arrays.edge_lemmas(info)
    f = a.snap()
    member = (a.shape, lambda *i: f(*i))
    return tuple(_idxarr((info.K,), (lambda s: (lambda k: s(k)))(info.sig[d]), a.shape[d], member) for d in range(a.ndim))


def flatnonzero(a):
    a = asarray(a)
    if a.ndim != 1:
        a = a.reshape(-1)
    return nonzero(a)[0]


def argwhere(a):
    a = _asbool(asarray(a))
    if a.ndim != 1:
        raise Unsupported('np.argwhere')
    return nonzero(a)[0].reshape(-1, 1)


def _argext(a, mx, axis):
    a = asarray(a)
    if a.ndim != 1 or axis not in (None, 0):
        raise Unsupported('np.argmax/argmin of rank %d' % a.ndim)
    e = core.E
    n = dt(a.shape[0])
    if e.decide(n <= 0):
        raise ValueError('attempt to get argmax of an empty sequence')
    f = a.snap()
    isb = a.dtype.kind == 'b'
    body = f(z3.Int('J?arg'))
    key = ('argext', mx, body.get_id(), body, n.get_id())
    if key not in e.memo:
        k = z3.Int(e.fresh('ARG'))
        e.memo[key] = k
        v = (lambda i: z3.If(f(i), 1, 0)) if isb else f
        e.add(z3.And(k >= 0, k < n))
        le = (lambda x, y: x <= y) if mx else (lambda x, y: x >= y)
        lt = (lambda x, y: x < y) if mx else (lambda x, y: x > y)
        if isb and mx:
            e.add(f(k) == arrays.t_forall(a.shape[0], lambda i: f(i), exists=True))
            e.add(arrays.t_forall(SymNum(k), lambda i: z3.Not(f(i))))
            e.add(z3.Implies(z3.Not(f(k)), k == 0))
        else:
            e.add(arrays.t_forall(a.shape[0], lambda i: le(v(i), v(k))))
            e.add(arrays.t_forall(SymNum(k), lambda i: lt(v(i), v(k))))
    return SymNum(e.memo[key], I64)


def argmax(a, axis=None):
    return _argext(a, True, axis)


def argmin(a, axis=None):
    return _argext(a, False, axis)


def tril_indices(n, k=0, m=None):
    core.E.trusted.add('numpy.tril_indices: the positions on and below the k-th diagonal')
    if m is not None and m is not n:
        raise Unsupported('tril_indices m')
    mask = SymArray((n, n), B1, lambda i, j: j <= i + term(k))
    return nonzero(mask)


def triu_indices(n, k=0, m=None):
    mask = SymArray((n, n), B1, lambda i, j: j >= i + term(k))
    return nonzero(mask)


def triu(a, k=0):
    a = asarray(a)
    f = a.snap()
    kt = term(k)
    z = z3.BoolVal(False) if a.dtype.kind == 'b' else sym.cast_term(z3.IntVal(0), I64, a.dtype)
    return SymArray(a.shape, a.dtype, lambda i, j: z3.If(j - i >= kt, f(i, j), z))


def tril(a, k=0):
    a = asarray(a)
    f = a.snap()
    kt = term(k)
    z = z3.BoolVal(False) if a.dtype.kind == 'b' else sym.cast_term(z3.IntVal(0), I64, a.dtype)
    return SymArray(a.shape, a.dtype, lambda i, j: z3.If(j - i <= kt, f(i, j), z))


class _UniqueIndex(SymArray):
    """First-occurrence indices in value order (order unspecified here)."""


def unique(a, axis=None, return_index=False):
    a = asarray(a)
    core.E.trusted.add('numpy.unique(axis): the distinct rows; return_index gives first occurrences')
    if axis is None:
        raise Unsupported('np.unique without axis')
    axis = axis % a.ndim
    n = a.shape[axis]
    m = a if axis == 0 else a.transpose()
    f = m.snap()
    rest = m.shape[1:]

    def row_eq(i, k):
        if not rest:
            return f(i) == f(k)
        from .arrays import _all_nd
        return _all_nd(rest, lambda *r: f(i, *r) == f(k, *r))
    if isinstance(n, int) and n <= 6:
        # concrete number of rows: fork on the equalities
        kept = []
        for i in range(n):
            if not b.any(core.E.decide(row_eq(z3.IntVal(i), z3.IntVal(k))) for k in kept):
                kept.append(i)
        idx = array(kept, dtype=I64) if kept else zeros((0,), I64)
        # the order of distinct rows is unspecified by the contract: source order is used
        res = take(a, idx, axis=axis)
        if return_index:
            r = _idxarr((len(kept),), idx.snap(), n)
            r.sorted_by = r
            return res, r
        return res

    def first(i):
        # not exists k < i with the same row
        return z3.Not(t_forall(dim(i), lambda k: row_eq(i, k), exists=True))
    mask = SymArray((n,), B1, first)
    info = compress(mask)
    perm = z3.Function(core.E.fresh('uperm'), z3.IntSort(), z3.IntSort())
    k = z3.Int('U?p')
    core.E.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < info.K.t), z3.And(perm(k) >= 0, perm(k) < info.K.t)),
                         patterns=[perm(k)]))
    s0 = info.sig[0]
    r = _idxarr((info.K,), lambda q: s0(perm(q)), n)
    r.sorted_by = _idxarr((info.K,), lambda q: s0(q), n, ((n,), lambda i: first(i)))
    res = take(a, r, axis=axis)
    return (res, r) if return_index else res


def sort(a, axis=-1):
    s = getattr(a, 'sorted_by', None)
    if s is not None:
        return s
    raise Unsupported('np.sort')


def argsort(a, axis=-1):
    raise Unsupported('np.argsort')


def searchsorted(*a, **k):
    raise Unsupported('np.searchsorted')


# ---------------------------------------------------------------- insert / delete
def insert(arr, index, values, axis=None):
    core.E.trusted.add('numpy.insert with an integer index')
    arr = asarray(arr)
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    axis = axis % arr.ndim
    n = arr.shape[axis]
    if isinstance(index, SymArray) and index.ndim == 0:
        index = index._as_scalar()
    if is_slice(index) or not is_int_scalar(index):
        raise Unsupported('np.insert with a non-integer index')
    it = term(index)
    e = core.E
    if e.decide(z3.Or(it < -dt(n), it > dt(n))):
        raise IndexError('index %s is out of bounds for axis %d with size %s' % (index, axis, n))
    pos = z3.simplify(it + dt(n)) if e.decide(it < 0) else it
    v = array(values, dtype=arr.dtype, ndmin=arr.ndim)
    v = moveaxis(v, 0, axis)      # scalar index
    k = v.shape[axis]
    # broadcast the other dimensions
    fl = []
    for q in range(arr.ndim):
        if q == axis:
            fl.append(False)
        elif dims_equal(v.shape[q], arr.shape[q]):
            fl.append(False)
        elif dims_equal(v.shape[q], 1):
            fl.append(True)
        else:
            raise ValueError('could not broadcast input array from shape into shape')
    vf = bcast_reader(v, fl, arr.ndim)
    f = arr.snap()
    kt = dt(k)

    def elem(*idx):
        i = idx[axis]

        def sub(x):
            j = list(idx)
            j[axis] = z3.simplify(x)
            return j
        return z3.If(i < pos, f(*idx), z3.If(i < pos + kt, vf(*sub(i - pos)), f(*sub(i - kt))))
    sh = list(arr.shape)
    sh[axis] = dim(dt(n) + kt)
    return SymArray(sh, arr.dtype, elem)


def delete(arr, obj, axis=None):
    core.E.trusted.add('numpy.delete')
    arr = asarray(arr)
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    axis = axis % arr.ndim
    n = arr.shape[axis]
    f = arr.snap()
    e = core.E
    sh = list(arr.shape)
    if isinstance(obj, SymArray) and obj.ndim == 0:
        obj = obj._as_scalar()
    if is_int_scalar(obj):
        it = term(obj)
        if e.decide(z3.Or(it < -dt(n), it >= dt(n))):
            raise IndexError('index %s is out of bounds for axis %d with size %s' % (obj, axis, n))
        pos = z3.simplify(it + dt(n)) if e.decide(it < 0) else it
        sh[axis] = dim(dt(n) - 1)

        def elem(*idx):
            j = list(idx)
            i = idx[axis]
            j[axis] = z3.simplify(i + 1)
            return z3.If(i < pos, f(*idx), f(*j))
        return SymArray(sh, arr.dtype, elem)
    if is_slice(obj):
        start, ln, step = slice_params(obj, n)
        lt = dt(ln)
        if step < 0:
            # the same positions in increasing order
            start, step = z3.simplify(start + (lt - 1) * step), -step
        if step == 1:
            sh[axis] = dim(dt(n) - lt)

            def elem(*idx):
                j = list(idx)
                j[axis] = z3.simplify(idx[axis] + lt)
                return z3.If(idx[axis] < start, f(*idx), f(*j))
            return SymArray(sh, arr.dtype, elem)
        keep = SymArray((n,), B1, lambda i: z3.Not(z3.And(i >= start, (i - start) % step == 0, (i - start) / step < lt)))
        return arr[(slice(None),) * axis + (keep,)]
    o = asarray(obj)
    if o.dtype.kind == 'b':
        if o.ndim != 1 or not dims_equal(o.shape[0], n):
            raise ValueError('boolean array argument obj to delete must be one dimensional and match the axis length')
        g = o.snap()
        keep = SymArray((n,), B1, lambda i: z3.Not(g(i)))
        return arr[(slice(None),) * axis + (keep,)]
    if o.dtype.kind == 'f' and dims_equal(o.size, 0) and not isinstance(obj, SymArray):
        return arr.copy()
    if o.dtype.kind not in 'iu':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    g = o.snap()
    if not e.decide(t_forall(o.shape[0], lambda k: z3.And(g(k) >= -dt(n), g(k) < dt(n)))):
        raise IndexError('index is out of bounds')
    keep = SymArray((n,), B1, lambda i: z3.Not(t_forall(o.shape[0], lambda k: z3.Or(g(k) == i, g(k) + dt(n) == i),
                                                        exists=True)))
    return arr[(slice(None),) * axis + (keep,)]


def gradient(f, *varargs, axis=None, edge_order=1):
    core.E.trusted.add('numpy.gradient: central differences inside, one-sided of the given order at the ends')
    a = asarray(f)
    if axis is None or a.ndim > 2:
        raise Unsupported('np.gradient axis')
    axis = axis % a.ndim
    n = a.shape[axis]
    if n < edge_order + 1:
        raise ValueError('Shape of array too small to calculate a numerical gradient')
    if edge_order > 2:
        raise ValueError("'edge_order' greater than 2 not supported")
    g = a.snap()
    nt = dt(n)
    rd = a.dtype if a.dtype.kind == 'f' else F64
    h = varargs[0] if varargs else 1.0
    if len(varargs) > 1:
        raise Unsupported('gradient spacing')
    if isinstance(h, SymArray) and h.ndim == 1:
        if not dims_equal(h.shape[0], n):
            raise ValueError('when 1d, distances must match the length of the corresponding dimension')
        if edge_order != 1:
            raise Unsupported('gradient spacing with edge order 2')
        x = h.snap()
        xr = lambda i: to_real(x(i))

        def elem(*idx):
            def at(i):
                j = list(idx)
                j[axis] = z3.simplify(i)
                return to_real(g(*j))
            i = idx[axis]
            d1, d2 = xr(z3.simplify(i)) - xr(z3.simplify(i - 1)), xr(z3.simplify(i + 1)) - xr(i)
            # numpy's a f[i-1] + b f[i] + c f[i+1] in terms of the one-sided slopes (equal for increasing or decreasing x)
            mid = (d1 * ((at(i + 1) - at(i)) / d2) + d2 * ((at(i) - at(i - 1)) / d1)) / (d1 + d2)
            z = z3.IntVal(0)
            lo = (at(z + 1) - at(z)) / (xr(z3.IntVal(1)) - xr(z))
            hi = (at(nt - 1) - at(nt - 2)) / (xr(z3.simplify(nt - 1)) - xr(z3.simplify(nt - 2)))
            return z3.If(i == 0, lo, z3.If(i == nt - 1, hi, mid))
        return SymArray(a.shape, rd, elem)
    ht = to_real(term(h))
    half = z3.RealVal('1/2')

    def elem2(*idx):
        def at(i):
            j = list(idx)
            j[axis] = z3.simplify(i)
            return to_real(g(*j))
        i = idx[axis]
        mid = (at(i + 1) - at(i - 1)) * half
        if edge_order == 1:
            lo = at(z3.IntVal(1)) - at(z3.IntVal(0))
            hi = at(nt - 1) - at(nt - 2)
        else:
            lo = -z3.RealVal('3/2') * at(z3.IntVal(0)) + 2 * at(z3.IntVal(1)) - half * at(z3.IntVal(2))
            hi = half * at(nt - 3) - 2 * at(nt - 2) + z3.RealVal('3/2') * at(nt - 1)
        r = z3.If(i == 0, lo, z3.If(i == nt - 1, hi, mid))
        if not (z3.is_rational_value(ht) and ht.as_fraction() == 1):
            r = r / ht
        return r
    return SymArray(a.shape, rd, elem2)


# ---------------------------------------------------------------- linear algebra
class LinAlgError(Exception):
    pass


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None:
        raise Unsupported('norm ord')
    return sqrt(sum(x * x, axis=axis, keepdims=keepdims))


def _det(x):
    a = asarray(x)
    if a.ndim != 2 or not b.all(isinstance(d, int) for d in a.shape):
        raise Unsupported('det of a symbolic matrix')
    if a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    n = a.shape[0]
    g = lambda i, j: to_real(a.at(z3.IntVal(i), z3.IntVal(j)))
    if n == 1:
        t = g(0, 0)
    elif n == 2:
        t = g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
    elif n == 3:
        t = (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
             + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))
    else:
        raise Unsupported('det of a %d x %d matrix' % (n, n))
    return SymNum(t, F64)


def _solve(a, c):
    core.E.trusted.add('numpy.linalg.solve for 2x2 systems')
    a, c = asarray(a), asarray(c)
    if not (dims_equal(a.shape[0], 2) and dims_equal(a.shape[1], 2) and c.ndim == 1):
        raise Unsupported('solve of other than 2x2 systems')
    g = lambda i, j: to_real(a.at(z3.IntVal(i), z3.IntVal(j)))
    r = lambda i: to_real(c.at(z3.IntVal(i)))
    det = z3.simplify(g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0))
    e = core.E
    if e.decide(det == 0):
        raise LinAlgError('Singular matrix')
    x0, x1 = [z3.Real(e.fresh('solve')) for _ in range(2)]
    e.memo['solution'] = (x0, x1)
    e.add(z3.And(g(0, 0) * x0 + g(0, 1) * x1 == r(0), g(1, 0) * x0 + g(1, 1) * x1 == r(1),
                 x0 * det == r(0) * g(1, 1) - g(0, 1) * r(1), x1 * det == g(0, 0) * r(1) - r(0) * g(1, 0)))
    return array([SymNum(x0, F64), SymNum(x1, F64)])


def _lstsq(a, c, rcond=None):
    core.E.trusted.add('numpy.linalg.lstsq for one column: t = <a, b> / <a, a> (0 for a zero column)')
    a, c = asarray(a), asarray(c)
    e = core.E
    f, g = a.snap(), c.snap()
    n = a.shape[0]
    if dims_equal(a.shape[1], 1):
        z = z3.IntVal(0)
        aa = t_sum(n, lambda i: to_real(f(i, z)) * to_real(f(i, z)))
        zero = e.decide(aa == 0)
        if c.ndim == 1:
            ab = t_sum(n, lambda i: to_real(f(i, z)) * to_real(g(i)))
            x = z3.RealVal(0) if zero else z3.Real(e.fresh('lsq'))
            if not zero:
                e.add(x * aa == ab)
            sol = array([SymNum(x, F64)])
            if not zero and core.E.decide(dt(n) > 1):
                res = array([SymNum(t_sum(n, lambda i: (to_real(f(i, z)) * x - to_real(g(i))) ** 2), F64)])
            else:
                res = zeros((0,))
            return sol, res, (0 if zero else 1), None
        k = c.shape[1]
        xf = z3.Function(e.fresh('lsqv'), z3.IntSort(), z3.RealSort())

        def xe(i, j):
            if zero:
                return z3.RealVal(0)
            if not sym.has_bound(j):
                e.axiom(('lsqv', xf.name(), j.get_id(), j), lambda: [
                    xf(j) * aa == t_sum(n, lambda q: to_real(f(q, z)) * to_real(g(q, j)))])
            return xf(j)
        sol = SymArray((1, k), F64, xe)
        if not zero and core.E.decide(dt(n) > 1):
            def re(j):
                x = xe(z3.IntVal(0), j)
                return t_sum(n, lambda i: (to_real(f(i, z)) * x - to_real(g(i, j))) ** 2)
            res = SymArray((k,), F64, re)
        else:
            res = zeros((0,))
        return sol, res, (0 if zero else 1), None
    if dims_equal(a.shape[1], 2) and c.ndim == 1:
        core.E.trusted.add('numpy.linalg.lstsq for two independent columns: the normal equations')
        c0, c1 = z3.IntVal(0), z3.IntVal(1)
        A = lambda p, q: t_sum(n, lambda i: to_real(f(i, p)) * to_real(f(i, q)))
        B = lambda p: t_sum(n, lambda i: to_real(f(i, p)) * to_real(g(i)))
        a00, a01, a11, b0, b1 = A(c0, c0), A(c0, c1), A(c1, c1), B(c0), B(c1)
        if e.decide(a00 * a11 - a01 * a01 == 0):
            raise Unsupported('lstsq of dependent columns')
        x0, x1 = [z3.Real(e.fresh('lsq')) for _ in range(2)]
        e.memo['solution'] = (x0, x1)
        e.add(z3.And(a00 * x0 + a01 * x1 == b0, a01 * x0 + a11 * x1 == b1))
        res = array([SymNum(t_sum(n, lambda i: (to_real(f(i, c0)) * x0 + to_real(f(i, c1)) * x1 - to_real(g(i))) ** 2), F64)])
        if not core.E.decide(dt(n) > 2):
            res = zeros((0,))
        return array([SymNum(x0, F64), SymNum(x1, F64)]), res, 2, None
    raise Unsupported('lstsq of %s' % (a.shape,))


def _matrix_rank(M, tol=None):
    """A lazy rank: only comparisons with 1 and 2 are specified (exact rank over the reals)."""
    core.E.trusted.add('numpy.linalg.matrix_rank <= 1 (2): all 2x2 (3x3) minors vanish (exact rank)')
    return _Rank(asarray(M))


class _Rank:
    def __init__(self, M):
        self.M = M

    def __le__(self, k):
        M = self.M
        f = M.snap()
        r, c = M.shape
        if k == 1:
            from .arrays import _all_nd
            one = lambda i, j, p, q: to_real(f(i, p)) * to_real(f(j, q)) == to_real(f(i, q)) * to_real(f(j, p))
            t = _all_nd((r, r, c, c), one)
            for i, j in core.E.memo.get('minors', ()):
                # instances at the rows the contract speaks about
                t = z3.And(t, z3.Implies(z3.And(i >= 0, i < dt(r), j >= 0, j < dt(r)), _all_nd((c, c), lambda p, q: one(i, j, p, q))))
            return SymBool(t, B1)
        if k == 2:
            if isinstance(r, int) and r < 3 or isinstance(c, int) and c < 3:
                return True
            import itertools
            from .arrays import _all_nd

            def minor(x, y):
                g = lambda i, j: to_real(f(x[i], y[j]))
                return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
                        + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0))) == 0

            def triples(n, fn):
                if isinstance(n, int) and n <= 4:
                    return z3.And([fn([z3.IntVal(i) for i in t]) for t in itertools.combinations(range(n), 3)])
                return _all_nd((n, n, n), lambda *t: fn(t))
            return SymBool(triples(r, lambda x: triples(c, lambda y: minor(x, y))), B1)
        raise Unsupported('rank <= %s of %s' % (k, (r, c)))

    def __lt__(self, k):
        return self <= k - 1

    def __gt__(self, k):
        return ~(self <= k) if isinstance(self <= k, SymBool) else not (self <= k)

    def __eq__(self, k):
        if k == 0:
            return all(self.M == 0)
        raise Unsupported('rank == %s' % k)

    __hash__ = None


linalg = types.SimpleNamespace(norm=_norm, det=_det, solve=_solve, lstsq=_lstsq, matrix_rank=_matrix_rank,
                               LinAlgError=LinAlgError)


class _Random:
    def __getattr__(self, n):
        raise Unsupported('np.random')


random = _Random()


def errstate(**k):
    return _PrintOptions()


def seterr(**k):
    return {}


def logspace(*a, **k):
    raise Unsupported('np.logspace')


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported('numpy.%s has no contract' % name)
