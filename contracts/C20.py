from pydv.contract import contract

INTERP = ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
SMOOTH = ('savgol', 'window')
INTER = ('exact', 'almost')


REST = '(everything registered before)'     # stands for any number of further registered names


class Registry(object):
    """One of the three registries behind its public functions; the state before the contract is arbitrary: besides the
    names it knows about, the registry holds an opaque entry that stands for everything registered before."""

    def __init__(self, H, kind):
        self.H, self.kind, self.sk = H, kind, H.sk
        self.mod = H.load({'interp': 'skcurve._interpolate', 'smooth': 'skcurve._smooth', 'inter': 'skcurve._intersect'}[kind])
        self.builtin = {'interp': INTERP, 'smooth': SMOOTH, 'inter': INTER}[kind]
        self.saved = []
        for k, v in list(vars(self.mod).items()):
            if not k.startswith('__'):
                self.saved.append((k, v, dict(v) if type(v) is dict else None))
        self.rest = False
        for k, v, c in self.saved:
            if c is not None and sorted(map(str, c)) == sorted(self.builtin):
                v[REST] = REST
                self.rest = True

    def restore(self):
        for k, v, c in self.saved:
            setattr(self.mod, k, v)
            if c is not None:
                v.clear()
                v.update(c)

    def names(self):
        return {'interp': self.mod.__dict__.get('interp_methods'), 'smooth': self.mod.__dict__.get('smooth_methods'),
                'inter': self.mod.__dict__.get('intersect_methods')}[self.kind]()

    def register(self, name, obj, **kw):
        f = {'interp': 'register_interpolator', 'smooth': 'register_smooth_method', 'inter': 'register_intersect_method'}[self.kind]
        return getattr(self.mod, f)(name, **kw)(obj)

    def default(self):
        return self.mod.default_intersect_method() if self.kind == 'inter' else None

    def state(self):
        return (sorted(self.names()), self.default())

    def curve(self):
        return self.sk.Curve([[0.0, 1.0, 2.0, 3.0], [0.0, 1.0, 0.0, 2.0]])

    def make(self, log, tag):
        """An object of the right kind that records its use."""
        sk, mod = self.sk, self.mod
        if self.kind == 'interp':
            class Mine(mod.InterpolatorBase):
                def __init__(self, curve, **kw):
                    super(Mine, self).__init__(curve)
                    log.append((tag, 'made', tuple(sorted(kw.items()))))

                def _interpolate(self, grid):
                    log.append((tag, 'used'))
                    return self.curve.data[:3]
            return Mine
        if self.kind == 'smooth':
            def mine(curve, **kw):
                log.append((tag, 'made', tuple(sorted(kw.items()))))
                log.append((tag, 'used'))
                return curve.data
            return mine

        class Method(mod.IntersectionMethodBase):
            def __init__(self, **kw):
                log.append((tag, 'made', tuple(sorted(kw.items()))))

            def _intersect_segments(self, s1, s2):
                log.append((tag, 'used'))
                return mod.NOT_INTERSECTED

            def _intersect_curves(self, c1, c2):
                log.append((tag, 'used'))
                return []
        return Method

    def wrong(self, which):
        return [int, object, self.mod.InterpolationGrid if self.kind == 'interp' else dict, 'linear', None, (lambda *a, **k: None),
                self.sk.Curve][which]

    def get(self, name, **kw):
        m = self.mod
        if self.kind == 'interp':
            return m.get_interpolator(name, self.curve(), **kw)
        if self.kind == 'smooth':
            return m.get_smooth_method(name)
        return m.get_intersect_method(name, **kw)

    def use(self, name, **kw):
        c = self.curve()
        if self.kind == 'interp':
            return c.interpolate(3, method=name, **kw)
        if self.kind == 'smooth':
            return c.smooth(method=name, **kw)
        if name is None:
            return c.segments[0].intersect(c.segments[1], **kw)
        return c.intersect(c, method=name, **kw) if len(kw) else c.segments[0].intersect(c.segments[1], method=name)


def prior(H, R, log):
    """Names registered earlier."""
    k = H.choice('prior', (0, 1, 2))
    objs = {}
    for name in ('first', 'second')[:k]:
        objs[name] = R.make(log, name)
        R.register(name, objs[name])
    return objs


def run(H, body):
    kind = H.choice('registry', ('interp', 'smooth', 'inter'))
    R = Registry(H, kind)
    try:
        body(R)
    finally:
        R.restore()


F = ('_interpolate.register_interpolator', '_interpolate.get_interpolator', '_interpolate.interp_methods', '_smooth.register_smooth_method',
     '_smooth.get_smooth_method', '_smooth.smooth_methods', '_intersect.register_intersect_method', '_intersect.get_intersect_method',
     '_intersect.intersect_methods')
NEW = ('mine', '', 'Linear', 'exact ', 'second')


def similar(H, R):
    """Names that are new but look like registered ones."""
    base = R.builtin[:1] if H.symbolic else R.builtin + ('first',)
    return NEW + tuple(f(b) for b in base for f in (str.upper, str.capitalize, lambda b: b + ' ', lambda b: b[:-1], lambda b: '_' + b))


@contract('C20', functions=F)
def new_name(H):
    def body(R):
        log = []
        prior(H, R, log)
        name = H.choice('name', similar(H, R))
        H.assume(name not in R.names())
        before = R.state()
        obj = R.make(log, name)
        H.check('returns-the-object', R.register(name, obj) is obj)
        H.check('listed-once-with-the-others', sorted(R.names()) == sorted(before[0] + [name]))
        H.check('default-unchanged', R.default() == before[1])
        H.check('nothing-made-yet', not log)
        R.get(name)
        del log[:]
        R.use(name, p=1)
        H.check('used', log == [(name, 'made', (('p', 1),)), (name, 'used')])
        for n in before[0]:
            if isinstance(n, str):
                H.check('others-still-there', n in R.names())
    run(H, body)


@contract('C20', functions=F)
def existing_name(H):
    def body(R):
        log = []
        objs = prior(H, R, log)
        name = H.choice('name', R.builtin + ('first', 'second'))
        H.assume(name in R.names())
        before = R.state()
        kind = H.choice('object', ('right', 'same', 'wrong'))
        obj = R.make(log, 'again') if kind == 'right' or name not in objs else objs[name]
        kw = {}
        if kind == 'wrong':
            obj = R.wrong(H.choice('which', range(7)))
        if R.kind == 'inter':
            kw = H.choice('kw', ({}, {'default': True}))
        if kind == 'wrong' and R.kind != 'smooth':
            H.raises('rejected', (ValueError, TypeError), lambda: R.register(name, obj, **kw))
        else:
            H.raises('rejected', ValueError, lambda: R.register(name, obj, **kw))
        H.check('state-unchanged', R.state() == before)
        if name in objs:
            R.use(name)
            H.check('still-the-first-object', (name, 'used') in log and ('again', 'used') not in log)
        elif name in ('linear', 'exact', 'almost', 'cubic'):
            R.get(name)
            H.check('still-the-built-in', not log)
    run(H, body)


@contract('C20', functions=F)
def wrong_kind(H):
    def body(R):
        H.assume(R.kind != 'smooth')
        log = []
        prior(H, R, log)
        name = H.choice('name', NEW + ('exact', 'linear'))
        before = R.state()
        obj = R.wrong(H.choice('which', range(7)))
        kw = H.choice('kw', ({}, {'default': True})) if R.kind == 'inter' else {}
        if name in before[0]:
            H.raises('rejected', (TypeError, ValueError), lambda: R.register(name, obj, **kw))
        else:
            H.raises('rejected', TypeError, lambda: R.register(name, obj, **kw))
            H.raises('not-usable', NameError, lambda: R.get(name))
        H.check('state-unchanged', R.state() == before)
    run(H, body)


@contract('C20', functions=F + ('_intersect.set_default_intersect_method', 'Curve.interpolate', 'Curve.smooth', 'Curve.intersect',
                                'Segment.intersect'))
def unknown_name(H):
    def body(R):
        log = []
        prior(H, R, log)
        name = H.choice('name', similar(H, R) + ('nope', 'window.'))
        H.assume(name not in R.names())
        before = R.state()
        kw = H.choice('kw', ({}, {'p': 1}))
        H.raises('lookup', NameError, lambda: R.get(name, **({} if R.kind == 'smooth' else kw)))
        H.raises('operation', NameError, lambda: R.use(name, **kw))
        if R.kind == 'inter':
            H.raises('default', NameError, lambda: R.mod.set_default_intersect_method(name))
        H.check('state-unchanged', R.state() == before)
    run(H, body)


@contract('C20', functions=('_intersect.set_default_intersect_method', '_intersect.default_intersect_method',
                            '_intersect.register_intersect_method', '_intersect.intersect'))
def default_method(H):
    R = Registry(H, 'inter')
    try:
        H.check('initially-exact', R.default() == 'exact')
        log = []
        prior(H, R, log)
        H.check('registering-keeps-it', R.default() == 'exact')
        how = H.choice('how', ('register', 'set', 'set-builtin'))
        name = 'mine'
        if how == 'register':
            R.register(name, R.make(log, name), default=True)
        elif how == 'set':
            R.register(name, R.make(log, name))
            H.check('not-yet', R.default() == 'exact')
            R.mod.set_default_intersect_method(name)
        else:
            name = H.choice('builtin', INTER)
            R.mod.set_default_intersect_method(name)
        H.check('last-set', R.default() == name)
        H.check('registered', R.default() in R.names())
        if how != 'set-builtin':
            R.use(None)
            H.check('used-by-intersect', log == [(name, 'made', ()), (name, 'used')])
        bad = H.choice('then', ('unknown', 'existing', 'wrong-kind'))
        if bad == 'unknown':
            H.raises('rejected', NameError, lambda: R.mod.set_default_intersect_method('nope'))
        elif bad == 'existing':
            H.raises('rejected', ValueError, lambda: R.register('almost', R.make(log, 'x'), default=True))
        else:
            H.raises('rejected', TypeError, lambda: R.register('new', int, default=True))
        H.check('kept', R.default() == name)
    finally:
        R.restore()


@contract('C20', functions=F)
def listing_is_a_copy(H):
    def body(R):
        before = R.state()
        L = R.names()
        del L[:]
        H.check('registry-unchanged', R.state() == before)
        L.append('nope')
        H.check('not-registered', R.state() == before)
        H.raises('unknown', NameError, lambda: R.get('nope'))
    run(H, body)


@contract('C20', functions=F)
def decorators_are_independent(H):
    """A decorator made before another registration decides when it is applied."""
    def body(R):
        log = []
        f = {'interp': 'register_interpolator', 'smooth': 'register_smooth_method', 'inter': 'register_intersect_method'}[R.kind]
        d1, d2 = getattr(R.mod, f)('mine'), getattr(R.mod, f)('mine')
        base = R.state()[0]
        H.check('nothing-registered-yet', 'mine' not in base)
        a, b = R.make(log, 'a'), R.make(log, 'b')
        H.check('first', d1(a) is a)
        H.raises('second', ValueError, lambda: d2(b))
        H.raises('again', ValueError, lambda: d1(a))
        H.check('once', sorted(R.names()) == sorted(base + ['mine']))
        R.use('mine')
        H.check('first-object-used', ('a', 'used') in log and ('b', 'used') not in log)
    run(H, body)


@contract('C20', functions=F + ('_intersect.set_default_intersect_method',), deductive=False,
          bound='histories of up to 12 calls over 6 names')
def histories(H):
    R = Registry(H, H.choice('registry', ('interp', 'smooth', 'inter')))
    try:
        log = []
        model, default = list(R.names()), R.default()
        objs = {}
        pool = ('a', 'b', '', 'exact', 'linear', 'window')
        for k in range(H.int('calls', 1, 12)):
            op = H.choice('op', ('register', 'register', 'register-default', 'wrong', 'set', 'lookup', 'use', 'list'))
            name = H.choice('name', pool)
            known = name in model
            if op.startswith('register') or op == 'wrong':
                kw = {'default': True} if op == 'register-default' and R.kind == 'inter' else {}
                if op == 'wrong' and R.kind != 'smooth':
                    H.raises('wrong-kind', (ValueError, TypeError), lambda: R.register(name, int, **kw))
                elif known:
                    H.raises('existing', ValueError, lambda: R.register(name, R.make(log, 'x'), **kw))
                else:
                    objs[name] = R.make(log, (name, k))
                    H.check('returned', R.register(name, objs[name], **kw) is objs[name])
                    objs[name] = (name, k)
                    model.append(name)
                    if kw:
                        default = name
            elif op == 'set' and R.kind == 'inter':
                if known:
                    R.mod.set_default_intersect_method(name)
                    default = name
                else:
                    H.raises('set-unknown', NameError, lambda: R.mod.set_default_intersect_method(name))
            elif op in ('lookup', 'use'):
                if not known:
                    H.raises('unknown', NameError, lambda: (R.get if op == 'lookup' else R.use)(name))
                elif name in objs:
                    del log[:]
                    R.use(name)
                    H.check('uses-the-registered-object', log[-1] == (objs[name], 'used'))
            H.check('listing', sorted(R.names()) == sorted(model))
            H.check('default', R.default() == default)
            if default in objs:
                del log[:]
                R.use(None)
                H.check('default-used', log and log[-1] == (objs[default], 'used'))
    finally:
        R.restore()
