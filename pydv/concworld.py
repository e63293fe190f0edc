"""The concrete world: contracts are executed on the real code with seeded inputs (Python 3.9, PyPy)."""
import ast
import itertools
import math
import os
import random
import warnings

import numpy as np


class Reject(BaseException):
    """The drawn input does not satisfy the precondition."""


class Violation(BaseException):
    def __init__(self, name, msg=''):
        BaseException.__init__(self, name, msg)
        self.name, self.msg = name, msg


def mine(repo):
    """Numeric literals of the sources: sizes and values near them are tried."""
    ints, floats = set(), set()
    root = os.path.join(repo, 'skcurve')
    for fn in sorted(os.listdir(root)):
        if not fn.endswith('.py'):
            continue
        try:
            with open(os.path.join(root, fn)) as f:
                tree = ast.parse(f.read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int) and 0 <= n.value <= 400:
                    ints.update((n.value - 1, n.value, n.value + 1))
                elif isinstance(n.value, (int, float)) and abs(n.value) < 1e9 and n.value == n.value:
                    floats.add(float(n.value))
    return sorted(i for i in ints if i >= 0), sorted(floats)


def num(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise Violation('scalar', 'expected a scalar, got %r' % (x,))
        return x.reshape(-1)[0].item()
    if isinstance(x, np.generic):
        return x.item()
    return x


class ConcH(object):
    symbolic = False
    frames_only = False

    def __init__(self, sk, rng=None, given=None, consts=((), ()), big=False):
        self.sk = sk
        self.np = np
        self.rng = rng or random.Random(0)
        self.given = given
        self.rec = {}
        self.names = {}
        self.mag = 1.0
        self.eps = 1e-9
        self._frame = []
        self.ints, self.floats = consts
        self.checks = 0
        self.style = self.rng.choice(('grid', 'grid', 'bits', 'normal', 'normal', 'scaled', 'offset', 'dups', 'mono'))
        self.big = big
        self.nontrivial = False

    # ---------------------------------------------------------------- inputs
    def _n(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s.%d' % (name, k)

    def _given(self, name):
        if self.given is not None and name in self.given and self.given[name] is not None:
            return True
        return False

    def _put(self, name, v):
        self.rec[name] = v
        return v

    def size(self, name, lo=0, hi=None):
        name = self._n(name)
        if self._given(name):
            v = int(self.given[name])
        else:
            r = self.rng
            u = r.random()
            if u < 0.12:
                v = lo
            elif u < 0.72:
                v = lo + r.randint(0, 4)
            elif u < 0.95 or not self.big:
                v = lo + r.randint(0, 9)
            elif u < 0.99 or not self.ints:
                v = lo + r.randint(10, 40)
            else:
                v = max(lo, r.choice(self.ints))
            if hi is not None:
                v = min(v, hi)
        return self._put(name, v)

    def int(self, name, lo=None, hi=None):
        name = self._n(name)
        if self._given(name):
            v = int(self.given[name])
        else:
            a = -6 if lo is None else lo
            b = (a + 12) if hi is None else hi
            if b < a:
                raise Reject()
            r = self.rng
            u = r.random()
            v = a if u < 0.1 else b if u < 0.2 else r.randint(a, b)
        return self._put(name, v)

    def _val(self):
        r = self.rng
        u = r.random()
        if u < 0.3:
            return float(r.randint(-3, 3))
        if u < 0.5:
            return r.randint(-8, 8) / 4.0
        if u < 0.85:
            return r.gauss(0, 2)
        if u < 0.95 or not self.floats:
            return r.gauss(0, 1) * 10.0 ** r.randint(-2, 2)
        return r.choice(self.floats)

    def real(self, name, lo=None, hi=None, nonzero=False, step=None):
        name = self._n(name)
        if self._given(name):
            v = float(self.given[name])
        else:
            r = self.rng
            v = self._val()
            if lo is not None and hi is not None:
                u = r.random()
                v = float(lo) if u < .1 else float(hi) if u < .2 else r.uniform(lo, hi)
                if u > .9:
                    v = round(v * 4) / 4
                    v = min(max(v, lo), hi)
            elif lo is not None:
                v = lo + abs(v)
            elif hi is not None:
                v = hi - abs(v)
            if step:
                v = round(v / step) * step
            if nonzero and v == 0:
                v = 1.5
        self.mag = max(self.mag, abs(v))
        return self._put(name, v)

    def boolean(self, name):
        name = self._n(name)
        v = bool(self.given[name]) if self._given(name) else self.rng.random() < 0.5
        return self._put(name, v)

    def choice(self, name, options):
        name = self._n(name)
        options = list(options)
        if self._given(name):
            k = int(self.given[name]) % len(options)
        else:
            k = self.rng.randrange(len(options))
        self._put(name, k)
        return options[k]

    def _fill(self, shape, kind, d):
        r = self.rng
        tot = 1
        for s in shape:
            tot *= max(int(s), 0)
        if d.kind == 'b':
            p = r.choice((0.5, 0.5, 0.1, 0.9, 0.0, 1.0))
            return [r.random() < p for _ in range(tot)]
        if kind == 'inc':
            m = r.randrange(4)
            x = [0.0, float(r.randint(-5, 5)), r.gauss(0, 3), 0.0][m]
            out = []
            for _ in range(tot):
                out.append(x)
                x += [1.0, float(r.randint(1, 3)), r.random() + 0.05, 0.125][m]
            return out
        st = self.style
        if d.kind in 'iu':
            out = [r.randint(0, 1) if st == 'bits' else r.randint(-3, 3) if st in ('grid', 'dups') else r.randint(-50, 50)
                   for _ in range(tot)]
            if d.kind == 'u':
                out = [abs(x) for x in out]
        elif st == 'bits':
            out = [float(r.randint(0, 1)) for _ in range(tot)]
        elif st in ('grid', 'dups'):
            out = [float(r.randint(-3, 3)) for _ in range(tot)]
        elif st == 'normal':
            out = [r.gauss(0, 2) for _ in range(tot)]
        elif st == 'scaled':
            s = 10.0 ** r.randint(-3, 3)
            out = [r.gauss(0, 1) * s for _ in range(tot)]
        elif st == 'offset':
            c = r.choice((10.0, -100.0, 1000.0))
            out = [c + r.gauss(0, 1) for _ in range(tot)]
        else:   # mono: coordinates drift along the first axis
            out = [0.5 * k + r.gauss(0, .3) for k in range(tot)]
        if kind == 'nonneg':
            out = [abs(x) for x in out]
        elif kind == 'pos':
            out = [abs(x) + (1 if d.kind in 'iu' else 0.25) for x in out]
        if st == 'dups' and len(shape) == 2 and shape[0] > 1 and shape[1] > 0:
            n = int(shape[1])
            rows = [out[i * n:(i + 1) * n] for i in range(int(shape[0]))]
            for i in range(1, len(rows)):
                if r.random() < 0.5:
                    rows[i] = rows[r.randrange(i)]
            out = [x for row in rows for x in row]
        return out

    def _near(self, shape, near):
        """Values taken from (a contiguous run of) the rows of `near`, sometimes slightly perturbed."""
        r = self.rng
        near = np.asarray(near, dtype='float64')
        if not near.size or not tot_size(shape) or r.random() < 0.25:
            return None
        if len(shape) == near.ndim - 1 and tuple(shape) == near.shape[1:]:
            out = near[r.randrange(near.shape[0])].copy()
        elif len(shape) == near.ndim and tuple(shape[1:]) == near.shape[1:]:
            k, m = shape[0], near.shape[0]
            if k <= m and r.random() < 0.8:
                i = r.choice((0, m - k, r.randint(0, m - k)))
                out = near[i:i + k].copy()
            else:
                out = near[[r.randrange(m) for _ in range(k)]].copy()
        else:
            return None
        u = r.random()
        if u < 0.35:
            f = r.choice((1e-12, 1e-9, 9e-9, 1.1e-8, 3e-8, 1e-6, 1e-5, 1e-3))
            mask = np.array([r.random() < r.choice((0.3, 1.0)) for _ in range(out.size)]).reshape(out.shape)
            out += f * mask * r.choice((-1, 1))
        elif u < 0.55:
            out *= 1 + r.choice((-1, 1)) * r.choice((0.5e-5, 0.99e-5, 1.01e-5, 3e-5))
        elif u < 0.65:
            out.flat[r.randrange(out.size)] += r.choice((1, -1, 0.5))
        return [float(x) for x in out.reshape(-1)]

    def _vary(self, shape, flat, vary):
        """vary: 'dups' - some rows are repeated, exactly or up to a few units in the last places; 'scale' - any scale."""
        r = self.rng
        a = np.array(flat).reshape(shape)
        if 'dups' in vary and len(a) > 1 and r.random() < 0.5:
            for i in range(1, len(a)):
                if r.random() < 0.5:
                    a[i] = a[r.randrange(i)]
                    u = r.random()
                    if u < 0.5 and a[i].size:
                        j = r.randrange(a[i].size)
                        a[i].flat[j] = a[i].flat[j] * (1 + r.choice((2e-16, 4e-16, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6))) + r.choice((0, 0, 1e-13, 1e-9))
        if 'scale' in vary and r.random() < 0.5:
            a = a * 10.0 ** r.randint(-9, 6)
        return [float(x) for x in a.reshape(-1)]

    def _special(self, flat):
        """Some values become NaN or infinite."""
        r = self.rng
        p = r.choice((0.0, 0.05, 0.2, 0.2, 0.5, 1.0))
        vals = r.choice(((float('nan'),), (float('inf'),), (float('-inf'),), (float('nan'), float('inf'), float('-inf'))))
        return [r.choice(vals) if r.random() < p else x for x in flat]

    def array(self, name, shape, dtype='float64', kind='any', near=None, special=False, fill=None, vary=(), factors=()):
        name = self._n(name)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        d = np.dtype(dtype)
        if self._given(name):
            g = self.given[name]
            flat = _flatten(g)
            a = np.array(flat, dtype=d) if flat else np.zeros((0,), dtype=d)
            if a.size != int(np.prod(shape)):
                raise Reject()
            a = a.reshape(shape)
        elif fill is not None:
            a = np.array(fill(), dtype=d)
            if a.shape != shape:
                raise Reject()
        else:
            if isinstance(kind, tuple):       # ('int', lo, hi)
                lo, hi = int(kind[1]), int(kind[2])
                if hi <= lo and tot_size(shape):
                    raise Reject()
                flat = [self.rng.randrange(lo, hi) for _ in range(tot_size(shape))]
            else:
                flat = self._near(shape, near) if near is not None else None
                if flat is None:
                    flat = self._fill(shape, kind, d)
                elif d.kind in 'iu':
                    flat = [int(round(x)) for x in flat]
            if vary and d.kind == 'f':
                flat = self._vary(shape, flat, vary)
            if special:
                flat = self._special(flat)
            if factors and d.kind == 'f':
                f = self.rng.choice(factors)
                flat = [x * f for x in flat]
            a = np.array(flat, dtype=d).reshape(shape)
        if kind == 'inc' and a.size > 1 and not (a[1:] > a[:-1]).all():
            raise Reject()
        if a.size:
            self.nontrivial = True
            if d.kind != 'b':
                x = np.abs(a.astype('float64'))
                x = x[np.isfinite(x)]
                self.mag = max([self.mag] + ([float(np.max(x))] if x.size else []))
        if d.kind == 'f' and d.itemsize < 8:
            self.eps = max(self.eps, 1e-4)
        self._put(name, a.tolist())
        self._frame.append((name, a, a.copy(), a.flags.writeable))
        return a

    def affine(self, fn, cols=None):
        pass

    def opaque(self, name, sort, points, n=None):
        """Only used by the contracts that replace a callee (deductive runs)."""
        return None

    def find(self, name, lst, idx, match):
        r = [x for x in lst if match(x)]
        return r[0] if r else None

    def items(self, lst):
        return enumerate(lst)

    def preset(self, obj, name, value):
        """In the run-time world the property keeps its real value."""
        return getattr(obj, name)

    def local(self, name, shape, dtype='float64'):
        return None

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if not c:
            raise Reject()

    def callee(self, owner, name, relies, spec):
        pass

    def arith(self, name, c):
        pass

    def minors(self, i, j):
        pass

    def relies(self, name, c):
        self.check('relies:' + name, c)

    def have(self, name, c):
        self.check(name, c)

    def check(self, name, c):
        self.checks += 1
        if self.frames_only:
            return
        if isinstance(c, np.ndarray) and c.size != 1:
            raise Violation(name, 'not a boolean: %r' % (c,))
        if not c:
            raise Violation(name)

    def close(self, a, b, scale=None, rtol=None):
        a, b = num(a), num(b)
        if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))):
            return a == b
        a, b = float(a), float(b)
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return False
        s = max(1e-3, abs(a), abs(b), self.mag if scale is None else float(scale))
        return abs(a - b) <= (self.eps if rtol is None else rtol) * s

    def exact(self, a, b):
        a, b = num(a), num(b)
        return bool(a == b or (a != a and b != b))

    def Implies(self, a, b):
        return (not a) or bool(b)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, a):
        return not a

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def decide(self, c):
        return bool(c)

    def forall(self, n, fn):
        return all(bool(fn(i)) for i in range(int(n)))

    def exists(self, n, fn):
        return any(bool(fn(i)) for i in range(int(n)))

    def sum(self, n, fn):
        return math.fsum(float(num(fn(i))) for i in range(int(n)))

    def count(self, n, fn):
        return sum(1 for i in range(int(n)) if fn(i))

    def selection(self, n, pred):
        pos = [i for i in range(int(n)) if pred(i)]
        return len(pos), (lambda k: pos[int(k)])

    def range_of(self, a, lo, hi):
        if a.size and not ((a >= lo).all() and (a < hi).all()):
            raise Reject()

    def each(self, *ns):
        tot = 1
        for n in ns:
            tot *= max(int(n), 0)
        if len(ns) == 1:
            it = range(int(ns[0]))
        else:
            it = itertools.product(*[range(int(n)) for n in ns])
        if tot <= 150:
            return it
        it = list(it)
        return it[:30] + it[-30:] + [it[self.rng.randrange(tot)] for _ in range(60)]

    def at(self, a, *idx):
        if isinstance(a, np.ndarray):
            return num(a[tuple(int(i) for i in idx)])
        for i in idx:
            a = a[int(i)]
        return num(a)

    def num(self, x):
        return num(x)

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.0

    def abs(self, x):
        return abs(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def fresnel(self, x):
        from scipy.special import fresnel
        S, C = fresnel(x)
        return float(S), float(C)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def len(self, x):
        return len(x)

    def shape_is(self, a, *dims):
        return isinstance(a, np.ndarray) and a.shape == tuple(int(d) for d in dims)

    def is_nan(self, x):
        return math.isnan(num(x))

    def finite(self, x):
        return math.isfinite(num(x))

    def is_dtype(self, a, dtype):
        return np.dtype(a.dtype) == np.dtype(dtype)

    def same_array(self, a, b):
        return same(a, b)

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    def raises(self, name, exc, fn):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            if self.frames_only:
                return
            raise Violation(name, 'raised %s: %s instead of %s' % (type(e).__name__, e, exc))
        if self.frames_only:
            return
        raise Violation(name, 'returned %r instead of raising' % (r,))

    def iteration(self, obj, n, check):
        self.int('step', 0)
        k = 0
        for x in obj:
            self.check('iteration-ends', k < n)
            check(k, x)
            k += 1
        self.check('iteration-ends', k == n)

    def outcome(self, fn, exc):
        """(result, False), or (None, True) when fn raised exc."""
        try:
            return fn(), False
        except exc:
            return None, True

    def warns(self, fn):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn()
        return r, [x.category for x in w]

    # ---------------------------------------------------------------- frames
    def frame(self, name, obj):
        if isinstance(obj, np.ndarray):
            self._frame.append((name, obj, obj.copy(), obj.flags.writeable))

    def end(self):
        for name, a, old, fl in self._frame:
            self.checks += 1
            if not same(a, old) or a.flags.writeable != fl:
                raise Violation('frame:%s' % name, 'the array changed from %r to %r (writeable %s -> %s)'
                                % (old, a, fl, a.flags.writeable))

    def isolated(self, name, a, *others):
        self.checks += 1
        for o in others:
            if a.size and np.shares_memory(a, o):
                raise Violation(name, 'storage is shared')

    def readonly(self, name, a):
        self.checks += 1
        if a.flags.writeable:
            raise Violation(name, 'the array is writeable')

    def cauchy(self, n, f, g):
        pass

    def sq_nonneg(self, n, f):
        pass

    def sq_zero(self, n, f):
        pass

    def sum_reversal(self, n, f):
        pass

    def induct(self, name, n, pred):
        for i in self.each(n):
            self.check(name + '(step)', pred(i))

    def build(self, shape, fn, dtype='float64'):
        a = np.zeros(tuple(int(x) for x in shape), dtype=dtype)
        for ix in np.ndindex(*a.shape):
            a[ix] = fn(*ix)
        return a

    def pos_zero(self, n, f):
        pass

    def sum_le(self, name, n, f, g):
        pass

    def same_value(self, x, y):
        return self.close(x, y)

    def sum_eq(self, name, n, f, g):
        pass

    def lemma(self, name, t):
        pass


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        return bool(((a == b) | ((a != a) & (b != b))).all())
    return bool((a == b).all())


def tot_size(shape):
    t = 1
    for s in shape:
        t *= max(int(s), 0)
    return t


def _flatten(g):
    if isinstance(g, list):
        out = []
        for x in g:
            out += _flatten(x)
        return out
    return [g]
