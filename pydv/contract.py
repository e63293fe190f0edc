"""Registry of contracts (imported by contract modules in both worlds; Python 3.9 syntax)."""
import fnmatch

REG = {}


class Contract(object):
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts

    @property
    def key(self):
        return '%s/%s' % (self.prop, self.name)


def contract(prop, deductive=True, bounded=True, functions=(), weight=1.0, bound='', **opts):
    """Registers `fn(H)` as a contract of property `prop`.

    deductive  verified for all inputs by pydv (obligations)
    bounded    executed on the real code with seeded inputs (run-time contract, never counted as proved)
    functions  the functions of the repository put under contract by it
    """
    def dec(fn):
        o = dict(deductive=deductive, bounded=bounded, functions=tuple(functions), weight=weight, bound=bound)
        o.update(opts)
        c = Contract(prop, fn.__name__, fn, o)
        REG[c.key] = c
        return fn
    return dec


def select(prop=None, pattern='*'):
    return [c for c in REG.values() if (prop is None or c.prop == prop) and fnmatch.fnmatch(c.name, pattern)]
