"""Proof rules for loops and comprehensions over sequences of symbolic length."""
import types
import z3
from . import core, seq
from .core import Unsupported, PathAbort
from .sym import mknum, term
from .arrays import dt
from .seq import SymList, SymSeq, sym_iter


def frozen(f):
    """The function with the variables of the enclosing functions as they are now: bodies are evaluated on demand."""
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(types.CellType())
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def written():
    """Checks later that no array that exists now has been written to since."""
    bs = [(b, len(b.writes)) for b in core.E.buffers]

    def check():
        if any(len(b.writes) != n for b, n in bs):
            raise Unsupported('element of a sequence evaluated after an array was written to')
    return check


class Rec:
    """Effects recorded while a loop body is explored generically."""
    stack = []


class SetItem:
    """`lst[i] = x` in the body of a symbolic loop."""

    def __init__(self, i, x):
        self.i, self.x = i, x


def mapped(lst, x, q, maps):
    """Element x at position q after the loops that rewrote the elements of the list."""
    for s, body in maps:
        Rec.stack.append([])
        try:
            body((mknum(q), x) if s is None else s(mknum(q), x))
            eff = [y.x for l, y in Rec.stack[-1] if l is lst and isinstance(y, SetItem)]
        finally:
            Rec.stack.pop()
        if eff:
            x = eff[-1]
    return x


class GrowList(list):
    """A list that loops over symbolic sequences may append to, or rewrite element by element.

    After the loop it is the sequence of the appended elements: their number L is unknown, element q was appended by
    iteration pos(q), pos increases (at most one append per iteration)."""

    def __init__(self, *a):
        super().__init__(*a)
        self.loops = []
        self.maps = []
        self._seq = None

    def append(self, x):
        if Rec.stack:
            Rec.stack[-1].append((self, x))
            return
        if self.loops:
            raise Unsupported('append after a symbolic loop')
        super().append(x)

    def positions(self):
        if self._seq is None:
            if len(self.loops) != 1 or super().__len__():
                raise Unsupported('list built by several loops')
            e = core.E
            s, k, outcomes, body = self.loops[0]
            if any(len(x) > 1 for _, x in outcomes):
                raise Unsupported('several appends per iteration')
            K = dt(s.n)
            if all(len(x) == 1 for _, x in outcomes):
                self._seq = (s.n, lambda q: q)
            else:
                nm = e.fresh('grow')
                L, pos = z3.Int(nm + '_L'), z3.Function(nm + '_pos', z3.IntSort(), z3.IntSort())
                q, r = z3.Int('J?%s_q' % nm), z3.Int('J?%s_r' % nm)
                e.lemmas.add('the elements appended by a loop are in the order of its iterations')
                e.add(z3.And(L >= 0, L <= K))
                e.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L), z3.And(pos(q) >= 0, pos(q) < K)), patterns=[pos(q)]))
                e.add(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < L), pos(q) < pos(r)),
                                patterns=[z3.MultiPattern(pos(q), pos(r))]))
                self._seq = (mknum(L), pos)
        return self._seq

    def _run(self, k):
        """What iteration k appends (None: nothing)."""
        s, _, _, body = self.loops[0]
        self.valid()
        Rec.stack.append([])
        try:
            body(s.item(mknum(k)))
            eff = [x for l, x in Rec.stack[-1] if l is self]
        finally:
            Rec.stack.pop()
        if len(eff) > 1:
            raise Unsupported('several appends per iteration')
        return eff[0] if eff else None

    def as_seq(self):
        L, pos = self.positions()
        maps = list(self.maps)

        def item(q):
            t = z3.simplify(term(q))
            x = self._run(pos(t))
            if x is None:
                raise PathAbort()
            return mapped(self, x, t, maps)
        r = SymSeq(L, item)
        r.grown = self
        return r

    def entry(self, k):
        """(position, element) of what iteration k appends, None if it appends nothing."""
        x = self._run(k)
        if x is None:
            return None
        e = core.E
        L, pos = self.positions()
        q = z3.Int(e.fresh('entry'))
        e.add(z3.And(q >= 0, q < dt(L), pos(q) == k))
        return q, mapped(self, x, q, self.maps)

    def __setitem__(self, i, x):
        if Rec.stack and self.loops:
            Rec.stack[-1].append((self, SetItem(i, x)))
            return
        if self.loops:
            raise Unsupported('assignment to an element of a symbolically built list')
        super().__setitem__(i, x)

    def __getitem__(self, i):
        if self.loops:
            return self.as_seq()[i]
        return super().__getitem__(i)

    def __iter__(self):
        if self.loops:
            raise Unsupported('iterating a symbolically built list')
        return super().__iter__()

    def __len__(self):
        if self.loops:
            raise Unsupported('length of a symbolically built list')
        return super().__len__()

    def __bool__(self):
        if self.loops:
            return core.E.decide(dt(self.positions()[0]) > 0)
        return super().__len__() > 0

    def _no(self, *a, **k):
        if self.loops or Rec.stack:
            raise Unsupported('list method on a symbolically built list')


def _guard(name):
    f = getattr(list, name)

    def g(self, *a, **k):
        self._no()
        return f(self, *a, **k)
    setattr(GrowList, name, g)


for _n in ('extend', 'insert', 'remove', 'pop', 'clear', 'index', 'count', 'sort', 'reverse', 'copy', '__add__', '__iadd__', '__eq__',
           '__contains__', '__reversed__', '__delitem__', '__mul__'):
    _guard(_n)
GrowList.__hash__ = None


def store(lst, i, x):
    if not Rec.stack or not isinstance(lst, SymList) and (not isinstance(lst, GrowList) or not lst.loops):
        raise Unsupported('assignment to an element in a loop over a symbolic sequence')
    Rec.stack[-1].append((lst, SetItem(i, x)))


def newlist():
    return GrowList()


def listcomp(fn, it, star=False):
    s = sym_iter(it)
    if s is not None:
        fn = frozen(fn)
    f = (lambda x: fn(*x)) if star else fn
    if s is None:
        return [f(x) for x in it]
    return symmap(f, s)


def symmap(f, s):
    """[f(x) for x in s]: element i is f(s[i]), evaluated on demand.  The body is run once for a
    generic element so that an exception it raises for some element is raised here."""
    e = core.E
    if e.decide(dt(s.n) <= 0):
        return []
    k = z3.Int(e.fresh('comp'))
    e.add(z3.And(k >= 0, k < dt(s.n)))
    w = [(b, len(b.writes)) for b in e.buffers]
    Rec.stack.append([])
    try:
        outs = e.sub(lambda: f(s.item(mknum(k))))
        eff = Rec.stack[-1]
    finally:
        Rec.stack.pop()
    if eff or any(len(b.writes) != c for b, c in w):
        raise Unsupported('comprehension body with side effects')
    if any(exc is not None for _, _, exc in outs):
        f(s.item(mknum(k)))
    cache, valid = {}, written()

    def item(i):
        valid()
        t = z3.simplify(term(i))
        if t.get_id() not in cache:
            cache[t.get_id()] = (t, f(s.item(mknum(t))))
        return cache[t.get_id()][1]
    maps = []
    r = SymList(s.n, lambda i: mapped(r, item(i), z3.simplify(term(i)), maps))
    r.src, r.maps = (s, f), maps
    return r


def genexp(fn, it, star=False):
    s = sym_iter(it)
    if s is not None:
        fn = frozen(fn)
    f = (lambda x: fn(*x)) if star else fn
    if s is None:
        return (f(x) for x in it)
    return symmap(f, s)


def concrete(it):
    if sym_iter(it) is not None:
        raise Unsupported('filtered comprehension over a symbolic sequence')
    return it


def is_symbolic(it):
    return sym_iter(it) is not None


def _consts(ts):
    out, seen = {}, set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            go(t.body())
            return
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        for c in t.children():
            go(c)
    for t in ts:
        go(t)
    return out


def spoil(lst):
    def lost(*a):
        raise Unsupported('contents of a list after a loop that was left early')
    if isinstance(lst, GrowList):
        lst.loops.append(None)
        lst.positions = lost
        lst.entry = lost
    else:
        lst._item = lost


def symloop(it, body):
    """Iteration-independent loops: either some iteration leaves the loop, or none does.

    body(x) -> ('end',) | ('brk',) | ('ret', value).  Appends to GrowLists are recorded."""
    e = core.E
    s = sym_iter(it)
    body = frozen(body)
    if e.decide(dt(s.n) <= 0):
        return ('end',)
    before = set(_consts(e.pc)) | {t[2].decl().name() for t in e.inputs if t[1] in ('size', 'int', 'real', 'bool')}
    nm = e.fresh('iter')
    k = z3.Int(nm)
    wr = [(b, len(b.writes)) for b in e.buffers]

    def run(kk):
        Rec.stack.append([])
        try:
            r = body(s.item(mknum(kk)))
            return r, list(Rec.stack[-1])
        finally:
            Rec.stack.pop()
    outs = e.sub(lambda: run(k), [k >= 0, k < dt(s.n)])
    if any(len(b.writes) != c for b, c in wr):
        raise Unsupported('loop body writes to an array')
    exits, ends = [], []
    for facts, res, exc in outs:
        facts = facts[2:]
        if exc is not None or res[0][0] != 'end':
            exits.append(facts)
        else:
            ends.append((facts, res[1]))
    if exits:
        if e.choose(2) == 0:
            # what the loop had appended before it was left is not tracked
            for _, eff in ends:
                for l, x in eff:
                    spoil(l)
            kk = z3.Int(e.fresh('exit_iter'))
            e.assume(z3.And(kk >= 0, kk < dt(s.n)))
            r, eff = run(kk)
            if r[0] == 'end':
                raise PathAbort()
            if r[0] == 'brk':
                return ('brk',)
            return r
        for facts in exits:
            cs = [c for n_, c in _consts(facts).items() if n_ not in before and n_ != nm]
            j = z3.Int('J?loop')
            f = z3.And(facts) if facts else z3.BoolVal(True)
            f = z3.substitute(f, (k, j))
            e.add(z3.ForAll([j] + cs, z3.Implies(z3.And(j >= 0, j < dt(s.n)), z3.Not(f))))
            if not cs:
                e.memo.setdefault('loopfacts', []).append((j, z3.Implies(z3.And(j >= 0, j < dt(s.n)), z3.Not(f))))
        if not any(eff for _, eff in ends):
            return ('end',)
    lists = []
    for _, eff in ends:
        for l, x in eff:
            if not any(l is q for q in lists):
                lists.append(l)
    for l in lists:
        sets = [[x for q, x in eff if q is l and isinstance(x, SetItem)] for _, eff in ends]
        if any(sets):
            if any(isinstance(x, SetItem) is False for _, eff in ends for q, x in eff if q is l) or any(len(x) > 1 for x in sets):
                raise Unsupported('mixed changes of a list in a loop')
            if any(not z3.eq(z3.simplify(term(x.i)), k) for xs in sets for x in xs) or getattr(s, 'over', None) is not l:
                raise Unsupported('assignment to other elements of a list in a loop')
            if Rec.stack:
                raise Unsupported('nested loops that change a list')
            l.maps.append((s.remake, body))
            continue
        l.valid = written()
        l.loops.append((s, k, [(facts, [x for q, x in eff if q is l]) for facts, eff in ends], body))
        if not Rec.stack:
            l.positions()
    return ('end',)
