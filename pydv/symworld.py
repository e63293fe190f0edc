"""The symbolic world: contracts are proved over all inputs by the verification engine."""
import numpy as rnp
import z3
from . import core, sym, arrays, npstub, seq
from .core import PathAbort, Unsupported
from .sym import SymNum, SymBool, term, bterm, mknum, to_real
from .arrays import SymArray, dim, dt


def strip(x):
    """Exact mathematical value (no numpy dtype)."""
    if isinstance(x, SymNum):
        return SymNum(x.t)
    if isinstance(x, SymBool):
        return SymBool(x.t)
    if isinstance(x, SymArray):
        return strip(x._as_scalar())
    if isinstance(x, rnp.generic):
        return x.item()
    return x


def gap(e):
    """An exception that the engine raised where it does not know the operation says nothing about the code."""
    from pydv import verify
    if verify.accidental(e):
        raise Unsupported('engine gap: %s: %s' % (type(e).__name__, e))


class SymH:
    symbolic = True

    def __init__(self, sk, prefix, frames=False):
        self.sk = sk
        self.np = npstub
        self.prefix = prefix
        self.frames = frames
        self.names = {}
        self._frame = []

    # ---------------------------------------------------------------- inputs
    def _n(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s.%d' % (name, k)

    def size(self, name, lo=0, hi=None):
        name = self._n(name)
        t = z3.Int(name)
        e = core.E
        e.inputs.append((name, 'size', t))
        e.add(t >= term(lo))
        if hi is not None:
            e.add(t <= term(hi))
        return mknum(t)

    def int(self, name, lo=None, hi=None):
        name = self._n(name)
        t = z3.Int(name)
        e = core.E
        e.inputs.append((name, 'int', t))
        if lo is not None:
            e.add(t >= term(lo))
        if hi is not None:
            e.add(t <= term(hi))
        return mknum(t)

    def real(self, name, lo=None, hi=None, nonzero=False, step=None):
        name = self._n(name)
        t = z3.Real(name)
        e = core.E
        e.inputs.append((name, 'real', t))
        if lo is not None:
            e.add(t >= to_real(term(lo)))
        if hi is not None:
            e.add(t <= to_real(term(hi)))
        if nonzero:
            e.add(t != 0)
        return mknum(t)

    def boolean(self, name):
        name = self._n(name)
        t = z3.Bool(name)
        core.E.inputs.append((name, 'bool', t))
        return SymBool(t)

    def choice(self, name, options):
        name = self._n(name)
        options = list(options)
        k = core.E.choose(len(options))
        core.E.inputs.append((name, 'choice', k))
        return options[k]

    def array(self, name, shape, dtype='float64', kind="any", near=None, special=False, fill=None, vary=(), factors=()):
        """kind: any | inc (strictly increasing) | nonneg | pos"""
        name = self._n(name)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        d = rnp.dtype(dtype)
        rng = {'i': z3.IntSort(), 'u': z3.IntSort(), 'b': z3.BoolSort(), 'f': z3.RealSort()}[d.kind]
        dims = [dim(s if not isinstance(s, SymNum) else s) for s in shape]
        e = core.E
        if all(isinstance(s, int) for s in dims) and len(dims) <= 2 and rnp.prod(dims) <= 16 and (kind == 'any' or isinstance(kind, tuple)):
            # individual constants: ground reasoning
            import itertools
            tab = {ix: z3.Const('%s[%s]' % (name, ','.join(map(str, ix))), rng)
                   for ix in itertools.product(*[range(s) for s in dims])}

            def fn(*ix):
                if all(z3.is_int_value(i) for i in ix):
                    k = tuple(i.as_long() for i in ix)
                    if k in tab:
                        return tab[k]
                return sel(ix, 0, ())

            def sel(ix, p, pre):
                if p == len(dims):
                    return tab[pre]
                r = sel(ix, p + 1, pre + (dims[p] - 1,))
                for k in range(dims[p] - 2, -1, -1):
                    r = z3.If(ix[p] == k, sel(ix, p + 1, pre + (k,)), r)
                return r
            if any(s == 0 for s in dims):
                fn = z3.Function(name, *([z3.IntSort()] * len(dims) + [rng]))
        else:
            fn = z3.Function(name, *([z3.IntSort()] * len(dims) + [rng]))
        e.inputs.append((name, 'array', fn, dims, str(d), kind) + ((True,) if special else ()))
        elem = fn if not (d.kind == 'f' and d.itemsize < 8) else (lambda *i: sym.f32(fn(*i)))
        if d.kind == 'u':
            i = [z3.Int('J?u%d' % k) for k in range(len(dims))]
            e.add(z3.ForAll(i, fn(*i) >= 0))
        a = SymArray(dims, d, elem=lambda *i: elem(*i), origin=name)
        if isinstance(kind, tuple):
            if e.decide(dt(dims[0]) > 0) and not e.decide(term(kind[1]) < term(kind[2])):
                raise PathAbort()
            self.range_of(a, kind[1], kind[2])
        elif kind == 'inc':
            i, j = z3.Ints('J?a J?b')
            n = dt(dims[0])
            e.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), fn(i) < fn(j)),
                            patterns=[z3.MultiPattern(fn(i), fn(j))]))
        elif kind in ('nonneg', 'pos'):
            i = [z3.Int('J?a%d' % k) for k in range(len(dims))]
            e.add(z3.ForAll(i, fn(*i) >= 0 if kind == 'nonneg' else fn(*i) > 0, patterns=[fn(*i)]))
        self._frame.append((name, a, len(a.buf.writes), a.flags.writeable))
        return a

    def affine(self, fn, cols=None):
        """Hint for interpolators: coordinate j is c + s t with (c, s) = fn(j) (cols: number of columns if known)."""
        def hints(r):
            js = [r[-1]] if r else [z3.IntVal(j) for j in range(cols)] if isinstance(cols, int) else []
            return [tuple(to_real(term(v)) for v in fn(SymNum(j))) for j in js]
        core.E.memo.setdefault('affine', []).append(hints)

    def preset(self, obj, name, value):
        """Modular step: the cached property obj.name takes an arbitrary value allowed by its own contract."""
        obj.__dict__[name] = value
        return value

    def callee(self, owner, name, relies, spec):
        """Modular step: calls of owner.name are replaced by the contract that 'relies' proves (deductive runs only)."""
        if hasattr(owner, name):
            setattr(owner, name, spec)

    def unknown_bool(self, *facts):
        """An arbitrary truth value b with facts (functions of b)."""
        b = SymBool(z3.Bool(core.E.fresh('callee')))
        for f in facts:
            core.E.add(bterm(f(b)))
        return b

    def _row(self, at, *pre):
        j = z3.Int('J?row')
        t = z3.simplify(at(*pre, j))
        if not (z3.is_app(t) and t.num_args() and z3.eq(t.arg(t.num_args() - 1), j)
                and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            raise Unsupported('the point is not a row of an input: %s' % t)
        return '!' + t.decl().name(), [t.arg(k) for k in range(t.num_args() - 1)]

    def opaque_pairs(self, name, a, c):
        """The values of the unknown function opaque(name, 'real', ends of two segments) for all pairs of segments
        of the lines a and c (arrays of points)."""
        def elem(i, j):
            key, rows = name, []
            for x, i in ((a, i), (c, j)):
                for o in (0, 1):
                    i1 = z3.IntVal(o) if isinstance(x.shape[0], int) and x.shape[0] == 2 else z3.simplify(i + o)
                    k, r = self._row(x.at, i1)
                    key += k
                    rows += r
            f = z3.Function(key, *([z3.IntSort()] * len(rows) + [z3.RealSort()])) if rows else None
            return f(*rows) if rows else z3.Const(key, z3.RealSort())
        return SymArray((a.shape[0] - 1, c.shape[0] - 1), rnp.dtype('float64'), elem)

    def opaque(self, name, sort, points, n=None):
        """The value of an unknown function of points that are rows of inputs: a truth value, a number or a vector."""
        key, rows = name, []
        for p in points:
            k, r = self._row(p.data.at)
            key += k
            rows += r
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        k = len(rows)
        if sort == 'vector':
            f = z3.Function(key, *([I] * (k + 1) + [R]))
            return SymArray((dim(n),), rnp.dtype('float64'), lambda i: f(*(rows + [i])))
        f = z3.Function(key, *([I] * k + [B if sort == 'bool' else R])) if k else z3.Const(key, B if sort == 'bool' else R)
        v = f(*rows) if k else f
        return SymBool(v) if sort == 'bool' else SymNum(v)

    @staticmethod
    def _base(lst):
        """(list built by a loop, functions applied to its elements by comprehensions)"""
        from . import loops
        fs = []
        while isinstance(lst, seq.SymSeq) and getattr(lst, 'src', None) is not None:
            fs.insert(0, (lst.src[1], lst))
            lst = lst.src[0]
        lst = getattr(lst, 'grown', None) or lst
        return (lst, fs) if isinstance(lst, loops.GrowList) else (None, fs)

    @staticmethod
    def _chain(K, rank=None):
        """The selections (matrix first) whose result has length K."""
        infos = [v[1] for k, v in core.E.memo.items() if isinstance(k, tuple) and k and k[0] == 'compress']

        def place(K, depth=0):
            for f in infos:
                if not z3.eq(z3.simplify(f.K.t), z3.simplify(K)):
                    continue
                if len(f.shape) > 1 and rank in (None, len(f.shape)):
                    return [f]
                if len(f.shape) == 1 and depth < 3:
                    r = place(dt(f.shape[0]), depth + 1)
                    if r:
                        return r + [f]
            return None
        return place(K)

    def find(self, name, lst, idx, match):
        """The element of a list built by a loop over the positions of a boolean array (np.nonzero, possibly selected
        again) that stands for the position idx; None if it has none.  The position being selected is an obligation."""
        from . import loops
        e = core.E
        ix = [term(i) for i in idx]
        if isinstance(lst, (list, tuple)) and not getattr(lst, 'loops', None) and not len(lst):
            # nothing was selected: instances of the completeness of the selections
            infos = [v[1] for k, v in e.memo.items() if isinstance(k, tuple) and k and k[0] == 'compress']
            for f in infos:
                if len(f.shape) == len(idx) > 1 and e.entails(z3.And(f.mask(*ix), *[z3.And(i >= 0, i < dt(d)) for i, d in zip(ix, f.shape)])):
                    k = f.kap(*ix)
                    e.add(z3.And(k >= 0, k < f.K.t, *[s == i for s, i in zip(f.sigma(k), ix)]))
                    for g in infos:
                        if len(g.shape) == 1 and z3.eq(z3.simplify(dt(g.shape[0])), z3.simplify(f.K.t)) and e.entails(g.mask(k)):
                            e.add(g.K.t > 0)
            return None
        base, maps = self._base(lst)
        if base is None or not base.loops:
            raise Unsupported('not a list built by a loop')
        chain = self._chain(dt(base.loops[0][0].n), len(idx))
        if not chain:
            raise Unsupported('no selection the list is built from')
        k = None
        for f in chain:
            at = ix if k is None else [k]
            c = f.mask(*at)
            e.prove(self.prefix + name, c)
            k = f.kap(*at)
            e.add(z3.And(c, k >= 0, k < f.K.t, *[s == i for s, i in zip(f.sigma(k), at)]))
        r = base.entry(k)
        if r is None:
            return None
        q, r = r
        for g, l in maps:
            r = loops.mapped(l, g(r), q, l.maps)
        return r

    def items(self, lst):
        """Yields a generic element (position, element) of the list."""
        if isinstance(lst, (list, tuple)) and not getattr(lst, 'loops', None):
            yield from enumerate(lst)
            return
        for q in self.each(self.len(lst)):
            base, _ = self._base(lst)
            if base is not None and base.loops:
                k = base.positions()[1](term(q))
                for f in reversed(self._chain(dt(base.loops[0][0].n)) or []):
                    sg = f.sigma(k)                  # an instance of the soundness of the selections
                    core.E.add(z3.And(f.mask(*sg), *[z3.And(i >= 0, i < dt(d)) for i, d in zip(sg, f.shape)]))
                    k = sg[0]
            yield q, lst[q]

    def local(self, name, shape, dtype='float64'):
        """An arbitrary intermediate value (not an input of the contract)."""
        n = len(core.E.inputs)
        a = self.array(name, shape, dtype)
        del core.E.inputs[n:]
        self._frame.pop()
        return a

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        core.E.assume(bterm(c))
        if core.E.check() == z3.unsat:
            raise PathAbort()

    def relies(self, name, c):
        """A fact another contract guarantees: assumed here (checked at run time)."""
        self.assume(c)

    def have(self, name, c):
        """Intermediate assertion: proved, then used."""
        self.check(name, c)
        core.E.add(z3.simplify(bterm(c)))

    def minors(self, i, j):
        """Hint: instances of 'all minors vanish' at the rows i, j."""
        core.E.memo['minors'] = core.E.memo.get('minors', []) + [(term(i), term(j))]

    def solution(self, k):
        """Hint (a witness): unknown k of the last linear system the code solved, None if there is none."""
        r = core.E.memo.get('solution')
        return None if r is None else SymNum(r[k])

    def arith(self, name, c):
        """A fact of real arithmetic: proved on its own (without any other fact), then used."""
        t = z3.simplify(bterm(c))
        core.E.prove_arith(self.prefix + name, t)
        core.E.add(t)

    def check(self, name, c):
        core.E.prove(self.prefix + name, bterm(c))

    def close(self, a, b, scale=None, rtol=None):
        return SymBool(_eq(a, b))

    exact = close

    def Implies(self, a, b):
        return SymBool(z3.Implies(bterm(a), bterm(b)))

    def And(self, *xs):
        return SymBool(z3.And([bterm(x) for x in xs]))

    def Or(self, *xs):
        return SymBool(z3.Or([bterm(x) for x in xs]))

    def Not(self, a):
        return SymBool(z3.Not(bterm(a)))

    def Iff(self, a, b):
        return SymBool(bterm(a) == bterm(b))

    def If(self, c, a, b):
        ta, tb = sym.unify(term(a), term(b))
        return mknum(z3.If(bterm(c), ta, tb))

    def decide(self, c):
        """Case split."""
        return core.E.decide(bterm(c))

    def forall(self, n, fn):
        return SymBool(arrays.t_forall(dim(n), lambda i: bterm(fn(mknum(i)))))

    def exists(self, n, fn):
        return SymBool(arrays.t_forall(dim(n), lambda i: bterm(fn(mknum(i))), exists=True))

    def sum(self, n, fn):
        return mknum(arrays.t_sum(dim(n), lambda i: to_real(term(strip(fn(mknum(i)))))))

    def count(self, n, fn):
        return mknum(arrays.t_sum(dim(n), lambda i: bterm(fn(mknum(i)))))

    def selection(self, n, pred):
        """(K, f): the positions i of range(n) with pred(i), in increasing order, are f(0..K-1)."""
        n = dim(n)
        m = SymArray((n,), rnp.dtype(bool), elem=lambda i: bterm(pred(mknum(i))))
        info = arrays.find_selection(m) or arrays.compress(m)
        return strip(info.K), (lambda k: mknum(info.sigma(term(k))[0]))

    def range_of(self, a, lo, hi):
        """Precondition: lo <= a[i] < hi for every element of the integer vector a."""
        f = a.snap()
        core.E.assume(arrays.t_forall(a.shape[0], lambda i: z3.And(f(i) >= term(lo), f(i) < term(hi))))

    def each(self, *ns):
        """Yields generic indices (one tuple) covering range(n) x ..."""
        e = core.E
        for n in ns:
            if e.decide(dt(dim(n)) <= 0):
                return
        ks = []
        for n in ns:
            k = z3.Int(e.fresh('at'))
            e.add(z3.And(k >= 0, k < dt(dim(n))))
            for j, f in e.memo.get('loopfacts', ()):
                e.add(z3.substitute(f, (j, k)))
            ks.append(mknum(k))
        yield ks[0] if len(ks) == 1 else tuple(ks)

    def at(self, a, *idx):
        """a[idx] as an exact number (indices in range)."""
        if isinstance(a, SymArray):
            x = a.at(*[term(i) for i in idx])
            return strip(a.wrap(x)) if a.dtype.kind != 'O' else x
        if isinstance(a, seq.SymSeq):
            r = a.item(idx[0]) if not isinstance(a.item(idx[0]), SymArray) or len(idx) == 1 else self.at(a.item(idx[0]), *idx[1:])
            return strip(r)
        return strip(a[idx if len(idx) > 1 else idx[0]])

    def num(self, x):
        return strip(x)

    def sqrt(self, x):
        return mknum(sym.t_sqrt(to_real(term(x))))

    def abs(self, x):
        return mknum(sym.t_abs(term(x)))

    def sin(self, x):
        return mknum(sym.t_sin(to_real(term(x))))

    def cos(self, x):
        return mknum(sym.t_cos(to_real(term(x))))

    def fresnel(self, x):
        t = to_real(term(x))
        return mknum(sym._FS(t)), mknum(sym._FC(t))

    def min(self, a, b):
        a, b = sym.unify(term(a), term(b))
        return mknum(z3.If(a <= b, a, b))

    def max(self, a, b):
        a, b = sym.unify(term(a), term(b))
        return mknum(z3.If(a >= b, a, b))

    def len(self, x):
        return strip(seq.pv_len(x))

    def shape_is(self, a, *dims):
        """a is an array of that shape."""
        if not isinstance(a, SymArray):
            return False
        if len(a.shape) != len(dims):
            return False
        return SymBool(z3.And([dt(p) == dt(dim(q)) for p, q in zip(a.shape, dims)] or [z3.BoolVal(True)]))

    def is_nan(self, x):
        return SymBool(term(x) == sym.NAN)

    def finite(self, x):
        t = term(x)
        return SymBool(z3.And(t != sym.NAN, t != sym.INF, t != -sym.INF)) if z3.is_real(t) else SymBool(z3.BoolVal(True))

    def is_dtype(self, a, dtype):
        return rnp.dtype(a.dtype) == rnp.dtype(dtype)

    def is_array(self, x):
        return isinstance(x, SymArray)

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc as e:
            gap(e)
            core.E.prove(self.prefix + name, True)
            return
        except (PathAbort, Unsupported, core.Budget, z3.Z3Exception):
            raise
        except Exception as e:
            gap(e)
            core.E.prove('%s%s' % (self.prefix, name), False)
            return
        core.E.prove(self.prefix + name, False)

    def outcome(self, fn, exc):
        """(result, False), or (None, True) when fn raised exc."""
        try:
            return fn(), False
        except exc as e:
            gap(e)
            return None, True

    def iteration(self, obj, n, check):
        """Iterating obj gives n items; check(i, item) is run for the i-th.

        Objects without an __iter__ of their own are iterated by collections.abc.Sequence: obj[0], obj[1], ... until
        IndexError; the step from any i to the next is checked, so (induction) the sequence has exactly n items."""
        import collections.abc
        if type(obj).__iter__ is not collections.abc.Sequence.__iter__:
            raise Unsupported('iteration by a method of the class')
        core.E.lemmas.add('collections.abc.Sequence iterates by obj[0], obj[1], ... until IndexError (induction over the index)')
        i = self.int('step', 0)
        self.assume(i <= n)
        x, end = self.outcome(lambda: obj[i], IndexError)
        self.check('iteration-ends', self.Iff(end, i == n))
        if not end:
            check(i, x)

    def warns(self, fn):
        """Runs fn, returns (result, list of warning categories)."""
        import warnings
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn()
        return r, [x.category for x in w]

    # ---------------------------------------------------------------- frames
    def frame(self, name, obj):
        """obj (array) must not change until the end of the contract."""
        if isinstance(obj, SymArray):
            self._frame.append((name, obj, len(obj.buf.writes), obj.flags.writeable))

    def end(self):
        for name, a, w, fl in self._frame:
            core.E.prove('%sframe:%s' % (self.prefix, name), len(a.buf.writes) == w and a.flags.writeable == fl)

    def isolated(self, name, a, *others):
        """a shares no storage with the others (or neither can be written through a)."""
        ok = all(a.buf is not o.buf for o in others)
        core.E.prove(self.prefix + name, ok)

    def readonly(self, name, a):
        core.E.prove(self.prefix + name, not a.flags.writeable)

    # ---------------------------------------------------------------- lemmas
    def cauchy(self, n, f, g):
        """(sum f g)^2 <= (sum f^2) (sum g^2)"""
        e = core.E
        e.lemmas.add('cauchy-schwarz for finite sums')
        fg, ff, gg = [to_real(term(self.sum(n, h))) for h in
                      (lambda i: f(i) * g(i), lambda i: f(i) * f(i), lambda i: g(i) * g(i))]
        e.add(fg * fg <= ff * gg)

    def sq_nonneg(self, n, f):
        e = core.E
        e.lemmas.add('a sum of squares is non-negative')
        e.add(to_real(term(self.sum(n, lambda i: f(i) * f(i)))) >= 0)

    def sq_zero(self, n, f):
        """sum f^2 = 0 iff f = 0 everywhere"""
        e = core.E
        e.lemmas.add('a sum of squares is zero iff every term is zero')
        s = to_real(term(self.sum(n, lambda i: f(i) * f(i))))
        e.add((s == 0) == bterm(self.forall(n, lambda i: SymBool(to_real(term(f(i))) == 0))))

    def sum_reversal(self, n, f):
        """sum f(i) = sum f(n-1-i)"""
        e = core.E
        e.lemmas.add('a finite sum does not depend on the order of its terms')
        e.add(term(self.sum(n, f)) == term(self.sum(n, lambda i: f(n - 1 - i))))

    def induct(self, name, n, pred):
        """Proves pred(i) for all 0 <= i < n by induction on i."""
        e = core.E
        nt = dt(dim(n))
        e.prove('%s%s(base)' % (self.prefix, name), z3.Implies(nt > 0, bterm(pred(0))))
        k = z3.Int(e.fresh('ind'))
        # the facts recorded while the step is written down are instances of axioms at k
        e.add(z3.And(k >= 0, z3.Or(k < nt - 1, k == 0)))
        p, q = bterm(pred(mknum(k))), bterm(pred(mknum(k + 1)))
        e.prove('%s%s(step)' % (self.prefix, name), z3.Implies(z3.And(k < nt - 1, p), q))
        e.add(arrays.t_forall(dim(n), lambda i: bterm(pred(mknum(i)))))
        e.lemmas.add('induction over an index')

    def pos_zero(self, n, f):
        """sum f = 0 iff f = 0 everywhere (f must be a non-negative expression)"""
        e = core.E
        e.lemmas.add('a sum of non-negative terms is zero iff every term is zero')
        s = to_real(term(self.sum(n, f)))
        e.prove(self.prefix + 'non-negative-terms', self.forall(n, lambda i: f(i) >= 0).t)
        e.add((s == 0) == bterm(self.forall(n, lambda i: SymBool(to_real(term(f(i))) == 0))))

    def sum_le(self, name, n, f, g):
        """Proves f(i) <= g(i) for every i, then sum f <= sum g."""
        for i in self.each(n):
            self.check(name, f(i) <= g(i))
        e = core.E
        e.lemmas.add('sums of smaller terms are smaller')
        e.add(to_real(term(self.sum(n, f))) <= to_real(term(self.sum(n, g))))

    def same_value(self, x, y):
        """The same value of a metric: a number, or the same function on the same arguments."""
        from .stubs import MetricValue
        if isinstance(x, MetricValue) and isinstance(y, MetricValue):
            if x.name != y.name or len(x.args) != len(y.args) or sorted(x.kw) != sorted(y.kw):
                return False
            c = [self._same_arg(a, b) for a, b in list(zip(x.args, y.args)) + [(x.kw[k], y.kw[k]) for k in x.kw]]
            return self.And(*c)
        if isinstance(x, MetricValue) or isinstance(y, MetricValue):
            return False
        return self.close(x, y)

    def _same_arg(self, a, b):
        if isinstance(a, SymArray) and isinstance(b, SymArray):
            if len(a.shape) != len(b.shape):
                return False
            f, g = a.snap(), b.snap()

            def eq(k, ix):
                if k == len(a.shape):
                    return f(*ix) == g(*ix)
                return arrays.t_forall(a.shape[k], lambda i: eq(k + 1, ix + (i,)))
            return SymBool(z3.And([dt(p) == dt(q) for p, q in zip(a.shape, b.shape)] + [eq(0, ())]))
        return a is b or (not isinstance(a, SymArray) and not isinstance(b, SymArray) and a == b)

    def build(self, shape, fn, dtype='float64'):
        """The array whose element at the indices is fn(indices)."""
        return SymArray(tuple(dim(x) for x in shape), rnp.dtype(dtype), lambda *ix: to_real(term(strip(fn(*[mknum(i) for i in ix])))))

    def conv(self):
        """(weight at k, number of weights, position read for (i, k)) of the last convolution along an axis."""
        w, L, R = core.E.memo['convolve1d']
        return (lambda k: mknum(to_real(w(term(k))))), mknum(dt(L)), (lambda i, k: mknum(R(term(i), term(k))))

    def sum_eq(self, name, n, f, g):
        """Proves f(i) = g(i) for every i, then sum f = sum g."""
        for i in self.each(n):
            self.check(name, self.close(f(i), g(i)))
        e = core.E
        e.lemmas.add('sums of equal terms are equal')
        e.add(to_real(term(self.sum(n, f))) == to_real(term(self.sum(n, g))))

    def lemma(self, name, t):
        e = core.E
        e.lemmas.add(name)
        e.add(bterm(t))


def _eq(a, b):
    if isinstance(a, (SymBool, bool, rnp.bool_)) and isinstance(b, (SymBool, bool, rnp.bool_)):
        return bterm(a) == bterm(b)
    x, y = sym.unify(term(a), term(b))
    return x == y
