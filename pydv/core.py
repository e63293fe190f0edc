"""Path exploration, path conditions, obligations and solver back ends."""
import time, fractions
import z3

Z = z3
# z3's timers race with its own checks (memory corruption in 5.3): limits are given as resource counts,
# about RATE units per millisecond, which also makes the answers independent of the machine
RATE = 3000
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class PathAbort(BaseException):
    """The current path is infeasible (or excluded by an assumption)."""


class Unsupported(BaseException):
    """A construct outside the verifier's subset."""


class Budget(BaseException):
    """The exploration budget of a contract is used up."""


def _frac(x):
    return z3.RealVal(str(x))


def where(e, n=6):
    import traceback, os
    tb = traceback.extract_tb(e.__traceback__)
    return ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:n])


_QC = {}


def _quantified(t):
    k = t.get_id()
    c = _QC.get(k)
    if c is not None:
        return c[1]
    r = z3.is_quantifier(t) or any(_quantified(a) for a in t.children())
    if len(_QC) > 200000:
        _QC.clear()
    _QC[k] = (t, r)
    return r


def _linear_zero(t):
    """0 == a*b  ->  a == 0 or b == 0 (integers)."""
    if z3.is_not(t):
        return z3.Not(_linear_zero(t.arg(0)))
    if z3.is_eq(t) and z3.is_int(t.arg(0)):
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(b):
            a, b = b, a
        if z3.is_int_value(a) and a.as_long() == 0 and z3.is_mul(b):
            return z3.Or([c == 0 for c in b.children()])
    return t


class Values:
    """Input values already read off a model."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _isolated(fn, limit):
    """Runs fn in a forked process; a crash or a hang of a solver makes the answer 'unknown'."""
    import os, pickle, select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException as ex:
                res = ('unknown', 'z3+cvc5', None, 'solver process: %r' % (ex,))
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    end = time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return 'unknown', 'z3+cvc5', None, 'the solver process crashed or did not answer'


class Watch:
    """Interrupts a z3 check that takes much longer than its resource limit allows for."""
    pid, lock, end = None, None, None

    @classmethod
    def start(cls, secs):
        import os, threading
        if cls.pid != os.getpid():
            cls.pid, cls.lock, cls.end = os.getpid(), threading.Lock(), None
            threading.Thread(target=cls.run, daemon=True).start()
        cls.end = time.time() + secs

    @classmethod
    def stop(cls):
        with cls.lock:
            cls.end = None

    @classmethod
    def run(cls):
        while True:
            time.sleep(0.5)
            with cls.lock:
                if cls.end is not None and time.time() > cls.end:
                    z3.main_ctx().interrupt()
                    cls.hits = getattr(cls, 'hits', 0) + 1


class Incremental:
    """An incremental z3 solver that is rebuilt after an interrupted check (z3 5.3 can crash when a solver
    that ran out of resources is used again)."""

    def __init__(self):
        self.facts, self.marks, self.limit, self.s = [], [], 0, None

    def _live(self):
        if self.s is None:
            s = self.s = z3.Solver()
            k = 0
            for m in self.marks:
                if m > k:
                    s.add(*self.facts[k:m])
                s.push()
                k = m
            if self.facts[k:]:
                s.add(*self.facts[k:])
        return self.s

    def add(self, t):
        self.facts.append(t)
        if self.s is not None:
            self.s.add(t)

    def push(self):
        self.marks.append(len(self.facts))
        if self.s is not None:
            self.s.push()

    def pop(self):
        del self.facts[self.marks.pop():]
        if self.s is not None:
            self.s.pop()

    def check(self, *ts):
        s = self._live()
        s.set('rlimit', self.limit)
        Watch.start(3.0)
        try:
            r = s.check(*ts)
        finally:
            Watch.stop()
        if r == z3.unknown:
            self.s = None
        return r

    def model(self):
        return self.s.model()


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'reason', 'path')

    def __init__(self, name, status, backend, secs, model=None, reason='', path=()):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.model, self.reason, self.path = model, reason, path


class Engine:
    def __init__(self, feas_ms=300, feasq_ms=80, prove_ms=4000, max_paths=400, deadline=None, ob_filter=None):
        self.feasq_ms = feasq_ms
        self.feas_ms, self.prove_ms, self.max_paths = feas_ms, prove_ms, max_paths
        self.deadline = deadline
        self.obligations = []
        self.notes = []           # unsupported constructs, budget
        self.paths = 0
        self.solver_s = 0.0
        self.ob_filter = ob_filter
        self.lemmas = set()       # names of lemma schemas instantiated
        self.trusted = set()      # names of trusted contracts used
        self.covered = set()
        self.inputs = []
        self.reset([])

    # ---- per-path state
    patience = 1.0

    def reset(self, prefix):
        self.patience = 1.0
        self.prefix, self.trace, self.alts = prefix, [], []
        self.pc = []
        self.known = {}
        self.counters = {}
        self.memo = {}
        self.inputs = []
        self.solver = Incremental()
        self.solver.limit = self.feas_ms * RATE
        self.ground = Incremental()
        self.ground.limit = self.feas_ms * RATE
        self.nq = 0
        pi = z3.Real('PI')
        self.add(z3.And(pi > _frac('3.14159'), pi < _frac('3.1416')))
        self.buffers = []
        self.undo = []

    def fresh(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def add(self, t):
        """Adds a fact to the path condition."""
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.known[t.get_id()] = (t, True)
        self.solver.add(t)
        if _quantified(t):
            self.nq += 1
            if self.nq == 1:
                self.solver.limit = self.feasq_ms * RATE
        else:
            self.ground.add(t)

    def axiom(self, key, mk):
        """Adds an axiom instance once per path."""
        if key in self.memo:
            return
        self.memo[key] = True
        for t in mk():
            self.add(t)

    def assume(self, t):
        t = z3.simplify(t) if z3.is_expr(t) else z3.BoolVal(bool(t))
        if z3.is_false(t):
            raise PathAbort()
        self.add(t)

    def check(self, *ts):
        t0 = time.time()
        r = self.ground.check(*ts)
        if r != z3.unsat and self.nq:
            if self.patience < 1:
                self.solver.limit = int(max(self.feasq_ms * self.patience, 8) * RATE)
            r = self.solver.check(*ts)
            self.solver.limit = self.feasq_ms * RATE
            # feasibility checks only prune: after unanswered ones less effort is spent
            self.patience = self.patience * 0.5 if r == z3.unknown else 1.0 if r == z3.unsat else self.patience
        self.solver_s += time.time() - t0
        return r

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget used up')

    # ---- decisions
    @staticmethod
    def has_bound(t):
        from .sym import has_bound
        return has_bound(t)

    @property
    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def decide(self, cond):
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = _linear_zero(cond)
        if self.has_bound(cond):
            raise Unsupported('case split on a bound index')
        neg = False
        base = cond
        while z3.is_not(base):
            base = base.arg(0)
            neg = not neg
        k = self.known.get(base.get_id())
        if k is not None:
            return k[1] != neg
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            self.tick()
            if self.check(cond) == z3.unsat:
                if self.check(z3.Not(cond)) == z3.unsat:
                    raise PathAbort()
                v = False
            elif self.check(z3.Not(cond)) == z3.unsat:
                v = True
            else:
                v = True
                self.alts.append(self.trace + [False])
        self.trace.append(v)
        t = cond if v else z3.Not(cond)
        self.add(t)
        self.known[base.get_id()] = (base, v != neg)
        return v

    def entails(self, cond):
        """Tries to prove a fact; adds it and says True if it is proved."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            self.tick()
            t0 = time.time()
            v = self._prove(z3.simplify(cond))[0] == 'discharged'
            self.solver_s += time.time() - t0
        self.trace.append(v)
        if v:
            self.add(cond)
        return v

    def choose(self, n):
        """Nondeterministic choice of 0..n-1 (enumerated)."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for k in range(1, n):
                self.alts.append(self.trace + [k])
        self.trace.append(v)
        return v

    # ---- exploration
    def explore(self, fn, on_exc=None):
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                self.notes.append('path budget of %d paths used up' % self.max_paths)
                break
            prefix = work.pop()
            self.reset(prefix)
            self.paths += 1
            try:
                self.tick()
                fn()
            except PathAbort:
                pass
            except Unsupported as e:
                self.notes.append('unsupported: %s (%s)' % (e, where(e)))
            except Budget as e:
                self.notes.append(str(e))
                break
            except z3.Z3Exception as e:
                self.notes.append('engine: %s (%s)' % (e, where(e)))
            except RecursionError:
                self.notes.append('engine: recursion')
            except Exception as e:       # raised by the code under verification
                if on_exc is None:
                    raise
                on_exc(e)
            work.extend(self.alts)

    def sub(self, fn, assumptions=()):
        """Explores fn from the current state; returns [(facts added, result, exception)]."""
        saved = (self.prefix, self.trace, self.alts)
        npc = len(self.pc)
        out = []
        work = [[]]
        cnt = 0
        try:
            while work:
                cnt += 1
                if cnt > 200:
                    raise Budget('sub-exploration budget used up')
                known, memo, counters, inputs = dict(self.known), dict(self.memo), dict(self.counters), list(self.inputs)
                self.solver.push()
                self.ground.push()
                nq = self.nq
                self.prefix, self.trace, self.alts = work.pop(), [], []
                self.undo.append([])
                res = exc = None
                ok = True
                try:
                    for a in assumptions:
                        self.assume(a)
                    if not assumptions or self.check() != z3.unsat:
                        res = fn()
                    else:
                        ok = False
                except PathAbort:
                    ok = False
                except (Unsupported, Budget, z3.Z3Exception, RecursionError):
                    raise
                except Exception as e:
                    exc = e
                finally:
                    for obj, name in self.undo.pop():       # values cached under facts that are dropped now
                        obj.__dict__.pop(name, None)
                    facts = self.pc[npc:]
                    del self.pc[npc:]
                    self.solver.pop()
                    self.ground.pop()
                    self.nq = nq
                    self.solver.limit = (self.feasq_ms if nq else self.feas_ms) * RATE
                    self.known, self.memo, self.counters, self.inputs = known, memo, counters, inputs
                if ok:
                    out.append((facts, res, exc))
                work.extend(self.alts)
        finally:
            self.prefix, self.trace, self.alts = saved
        return out

    # ---- obligations
    def prove(self, name, goal, inputs=None):
        if self.replaying:
            return
        if self.ob_filter is not None and not self.ob_filter(name):
            return
        self.tick()
        t0 = time.time()
        if goal is True or goal is False:
            goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        status, backend, model, reason = self._prove(goal)
        dt = time.time() - t0
        self.solver_s += dt
        values = None
        if isinstance(model, Values):
            values = model.v
        elif status == 'refuted' and model is not None:
            try:
                values = self.extract(goal, model)
            except (Exception, PathAbort, Unsupported, Budget) as e:     # model extraction is best effort
                reason = 'model extraction: %r' % (e,)
        self.obligations.append(Obligation(name, status, backend, dt, values, reason, list(self.trace)))

    def prove_arith(self, name, goal):
        """Proves a formula of real arithmetic for all values of its atoms, using no path fact."""
        if self.replaying or self.ob_filter is not None and not self.ob_filter(name):
            return
        self.tick()
        t0 = time.time()
        saved, self.pc = self.pc, []
        try:
            r = None if not z3.is_true(goal) else ('discharged', 'simplifier', None, '')
            if r is None:
                def go():
                    q = self._purified([], z3.Not(goal))
                    return q or ('unknown', 'z3-nlsat', None, 'arithmetic fact')
                r = _isolated(go, 2 * self.prove_ms / 1000.0 + 10)
        finally:
            self.pc = saved
        self.solver_s += time.time() - t0
        self.obligations.append(Obligation(name, r[0], r[1], time.time() - t0, None, r[3], list(self.trace)))

    def _prove(self, goal):
        if z3.is_true(goal):
            return 'discharged', 'simplifier', None, ''
        ng = z3.Not(goal)
        self.solver.push()
        try:
            self.solver.limit = min(2000, self.prove_ms) * RATE
            self.solver.add(ng)
            r = self.solver.check()
            if r == z3.unsat:
                return 'discharged', 'z3', None, ''
            if r == z3.sat:
                return 'refuted', 'z3', self.solver.model(), ''
        finally:
            self.solver.pop()
            self.solver.limit = (self.feasq_ms if self.nq else self.feas_ms) * RATE
        return _isolated(lambda: self._prove_hard(goal, ng), 6 * self.prove_ms / 1000.0 + 10)

    def _prove_hard(self, goal, ng):
        """Second attempt with all back ends (in a process of its own: the solvers may crash)."""
        facts = self.pc

        def refuted(m):
            try:
                return 'refuted', 'z3', Values(self.extract(goal, m)), ''
            except (Exception, PathAbort, Unsupported, Budget) as e:     # model extraction is best effort
                return 'refuted', 'z3', Values(None), 'model extraction: %r' % (e,)
        s = z3.Solver()
        s.set('timeout', self.prove_ms)
        s.add(*facts)
        s.add(ng)
        r = s.check()
        if r == z3.unsat:
            return 'discharged', 'z3', None, ''
        if r == z3.sat:
            return refuted(s.model())
        why = s.reason_unknown()
        r = self._purified(facts, ng)
        if r is not None:
            return r
        r = self._cvc5(facts, ng)
        if r == 'unsat':
            return 'discharged', 'cvc5', None, ''
        return 'unknown', 'z3+cvc5', None, why

    def _purified(self, facts, ng):
        """Ground nonlinear real reasoning: uninterpreted applications become constants
        (sound for unsat: congruence and quantified facts are dropped)."""
        table = {}
        cache = {}

        def walk(t):
            k = t.get_id()
            if k in cache:
                return cache[k][1]
            if z3.is_quantifier(t):
                raise ValueError
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if k not in table:
                    table[k] = (t, z3.FreshConst(t.sort(), 'pf'))
                r = table[k][1]
            elif t.num_args() == 0:
                r = t
            else:
                r = t.decl()(*[walk(a) for a in t.children()])
            cache[k] = (t, r)
            return r
        fs = []

        def conj(t):
            if z3.is_and(t):
                return [x for c in t.children() for x in conj(c)]
            return [t]
        ngs = conj(ng)
        for f in [x for t in facts for x in conj(t)] + ngs:
            try:
                fs.append(walk(f))
            except ValueError:
                # quantified: left out (its negation as well)
                if f is ng:
                    return None
        g = z3.BoolVal(True)
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Then(z3.With('simplify', som=True), 'solve-eqs', 'elim-term-ite', 'nlsat' if tac == 'qfnra-nlsat' else 'smt').solver() \
                    if tac == 'smt' else z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', self.prove_ms)
                s.add(*fs)
                s.add(g)
                if s.check() == z3.unsat:
                    return 'discharged', 'z3-nlsat', None, ''
            except z3.Z3Exception:
                continue
        return None

    def _cvc5(self, facts, ng):
        try:
            import cvc5
        except Exception:
            return 'unknown'
        s = z3.Solver()
        s.add(*facts)
        s.add(ng)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(self.prove_ms))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
            sm = p.getSymbolManager()
            res = ''
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                if 'sat' in str(o):
                    res = str(o).strip()
            return res
        except Exception:
            return 'unknown'

    # ---- counterexamples
    def extract(self, goal, model):
        """Values of the harness inputs in a (preferably small) model."""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.pc)
        s.add(z3.Not(goal))
        best = model
        sizes = [i for i in self.inputs if i[1] == 'size']
        for bound in (3, 5, 9):
            s.push()
            for i in sizes:
                s.add(i[2] <= bound)
            ok = s.check() == z3.sat
            if ok:
                best = s.model()
            s.pop()
            if ok:
                break
        m = best

        def ev(t):
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return 0
        def tok(x):
            from . import sym
            for t, v in ((sym.NAN, float('nan')), (sym.INF, float('inf')), (-sym.INF, float('-inf'))):
                if x == ev(t):
                    return v
            return x
        vals = {}
        for name, kind, *rest in self.inputs:
            if kind in ('size', 'int', 'real', 'bool'):
                vals[name] = ev(rest[0])
            elif kind == 'choice':
                vals[name] = rest[0]
            elif kind == 'array':
                fn, shape = rest[:2]
                special = len(rest) > 4
                dims = [d if isinstance(d, int) else ev(getattr(d, 't', d)) for d in shape]
                tot = 1
                for d in dims:
                    tot *= max(d, 0)
                if tot > 4000:
                    return None

                def build(pre, rem):
                    if not rem:
                        x = ev(fn(*[z3.IntVal(x) for x in pre]))
                        return tok(x) if special else x
                    return [build(pre + [x], rem[1:]) for x in range(rem[0])]
                vals[name] = build([], dims)
        return vals


E = None


def set_engine(e):
    global E
    E = e


def eng():
    return E
