"""Loads the package under verification from source and executes it over symbolic values.

Mechanical rewrites (nothing else is changed, nothing is dropped):
  R1  `for T in E: BODY`      -> the original loop when E has a concrete length, otherwise the
                                  loop rule applied to BODY (pydv.loops.symloop)
  R2  `[e for T in E]`, `(e for T in E)` (one generator, no filter) -> pydv.loops.listcomp/genexp
  R3  `[]` as a statement-level value -> a list that records appends of R1 loops
  R4  `def __bool__`          -> its result is decided (Python insists on a real bool)
  R5  builtins len, isinstance, range, int, float, bool, ... -> versions that know symbolic values
  R6  imports of numpy, scipy, csaps, networkx, cached_property, typing_extensions -> contracts
"""
import ast
import builtins
import os
import sys
import types
from . import seq, loops, npstub, stubs
from .core import Unsupported


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infunc = 0

    def visit_FunctionDef(self, node):
        self.infunc += 1
        self.generic_visit(node)
        self.infunc -= 1
        if node.name == '__bool__':
            node.decorator_list.append(ast.Name('__pv_bool_method__', ast.Load()))
        return node

    def visit_Lambda(self, node):
        self.infunc += 1
        self.generic_visit(node)
        self.infunc -= 1
        return node

    def _comp(self, node, name):
        self.generic_visit(node)
        if not self.infunc:
            return node
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if g.ifs:
            g.iter = ast.Call(ast.Name('__pv_concrete__', ast.Load()), [g.iter], [])
            return node
        star = False
        if isinstance(g.target, ast.Name):
            args = [ast.arg(g.target.id)]
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            args = [ast.arg(e.id) for e in g.target.elts]
            star = True
        else:
            g.iter = ast.Call(ast.Name('__pv_concrete__', ast.Load()), [g.iter], [])
            return node
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), node.elt)
        return ast.Call(ast.Name(name, ast.Load()), [lam, g.iter, ast.Constant(star)], [])

    def visit_ListComp(self, node):
        return self._comp(node, '__pv_listcomp__')

    def visit_GeneratorExp(self, node):
        return self._comp(node, '__pv_genexp__')

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.infunc and isinstance(node.value, ast.List) and not node.value.elts:
            node.value = ast.Call(ast.Name('__pv_newlist__', ast.Load()), [], [])
        return node

    visit_AnnAssign = visit_Assign

    def visit_For(self, node):
        import copy
        orig = copy.deepcopy(node)
        self.generic_visit(node)
        if not self.infunc:
            return node
        self.n += 1
        itn, bn, rn = ('__pv_it%d' % self.n, '__pv_body%d' % self.n, '__pv_r%d' % self.n)
        assign_it = ast.Assign([ast.Name(itn, ast.Store())], node.iter)
        node.iter = ast.Name(itn, ast.Load())
        problem = _loop_problem(orig)
        if problem:
            symbranch = [ast.Expr(ast.Call(ast.Name('__pv_unsupported__', ast.Load()), [ast.Constant(problem)], []))]
        else:
            body = copy.deepcopy(node.body)
            body = [_Store().visit(_BodyRet().visit(s)) for s in body]
            body = _flat(body)
            fn = ast.FunctionDef(bn, ast.arguments(posonlyargs=[], args=[ast.arg('__pv_x')], kwonlyargs=[], kw_defaults=[],
                                                   defaults=[]),
                                 [ast.Assign([copy.deepcopy(node.target)], ast.Name('__pv_x', ast.Load()))] + body +
                                 [ast.Return(ast.Tuple([ast.Constant('end')], ast.Load()))], [], None)
            fn.type_params = []
            call = ast.Assign([ast.Name(rn, ast.Store())],
                              ast.Call(ast.Name('__pv_symloop__', ast.Load()),
                                       [ast.Name(itn, ast.Load()), ast.Name(bn, ast.Load())], []))
            tag = ast.Subscript(ast.Name(rn, ast.Load()), ast.Constant(0), ast.Load())
            ret = ast.If(ast.Compare(tag, [ast.Eq()], [ast.Constant('ret')]),
                         [ast.Return(ast.Subscript(ast.Name(rn, ast.Load()), ast.Constant(1), ast.Load()))], [])
            symbranch = [fn, call, ret]
            if node.orelse:
                symbranch.append(ast.If(ast.Compare(copy.deepcopy(tag), [ast.Eq()], [ast.Constant('end')]),
                                        copy.deepcopy(node.orelse), []))
        cond = ast.If(ast.Call(ast.Name('__pv_is_symbolic__', ast.Load()), [ast.Name(itn, ast.Load())], []),
                      symbranch, [node])
        return [assign_it, cond]


def _plain_store(n):
    """`name[index] = value`"""
    return (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript)
            and isinstance(n.targets[0].value, ast.Name) and not isinstance(n.targets[0].slice, (ast.Slice, ast.Tuple)))


class _Store(ast.NodeTransformer):
    """`name[index] = value` in a loop body becomes a call that only accepts lists built by symbolic loops."""

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not _plain_store(n):
            return n
        t = n.targets[0]
        return ast.Expr(ast.Call(ast.Name('__pv_store__', ast.Load()), [ast.Name(t.value.id, ast.Load()), t.slice, n.value], []))


class _BodyRet(ast.NodeTransformer):
    """return/break/continue inside the loop body become results of the body function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node

    def visit_For(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    visit_While = visit_For

    def visit_Return(self, node):
        v = node.value or ast.Constant(None)
        return ast.Return(ast.Tuple([ast.Constant('ret'), v], ast.Load()))

    def visit_Break(self, node):
        if self.depth:
            return node
        return ast.Return(ast.Tuple([ast.Constant('brk')], ast.Load()))

    def visit_Continue(self, node):
        if self.depth:
            return node
        return ast.Return(ast.Tuple([ast.Constant('end')], ast.Load()))


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += x
        else:
            out.append(x)
    return out


def _loop_problem(node):
    """Reason why the loop carries state from one iteration to the next (None when it does not)."""
    assigned, read_first = set(), set()
    tgt = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    for st in node.body:
        plain = [n.targets[0] for n in ast.walk(st) if _plain_store(n)]
        for n in ast.walk(st):
            if isinstance(n, (ast.AugAssign,)) :
                return 'augmented assignment in a loop over a symbolic sequence'
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Delete)):
                return 'loop body with %s' % type(n).__name__
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and n not in plain:
                return 'assignment to an element in a loop over a symbolic sequence'
    defined = set(tgt)

    def names(n, ctx):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}
    stores = set()
    for st in node.body:
        stores |= names(st, ast.Store)
    for st in node.body:
        loads = names(st, ast.Load)
        if isinstance(st, ast.Assign):
            if (loads & stores) - defined:
                return 'loop-carried variable %s' % sorted((loads & stores) - defined)
            defined |= names(st, ast.Store)
        else:
            inner = names(st, ast.Store)
            if ((loads & stores) - defined) - inner:
                return 'loop-carried variable'
            if inner - defined - tgt and (loads & (inner - defined)):
                # assigned and read inside a compound statement: accept only if assigned first textually
                pass
    return None


CODE = {}


class Loader:
    def __init__(self, repo, package='skcurve'):
        self.repo, self.package = repo, package
        self.mods = {}
        self.stubs = stubs.modules()
        self.stubs['numpy'] = npstub
        bi = dict(vars(builtins))
        bi.update(seq.BUILTINS)
        bi['iter'] = lambda x, *a: x if isinstance(x, seq.SymSeq) and not isinstance(x.n, int) else builtins.iter(x, *a)
        bi['__import__'] = self.imp
        self.builtins = bi

    def helpers(self):
        return {'__pv_listcomp__': loops.listcomp, '__pv_genexp__': loops.genexp, '__pv_concrete__': loops.concrete,
                '__pv_is_symbolic__': loops.is_symbolic, '__pv_symloop__': loops.symloop,
                '__pv_newlist__': loops.newlist, '__pv_store__': loops.store, '__pv_bool_method__': seq.bool_method,
                '__pv_unsupported__': self._unsup}

    @staticmethod
    def _unsup(msg):
        raise Unsupported(msg)

    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        raise ImportError(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            return self.stubs[name]
        path, pkg = self.find(name)
        m = self.exec_file(name, path, pkg)
        return m

    def exec_file(self, name, path, pkg=False):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        parent, _, leaf = name.rpartition('.')
        if parent:
            setattr(self.load(parent), leaf, m)
        code = CODE.get(path)
        if code is None:
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Rewriter().visit(tree)
            ast.fix_missing_locations(tree)
            code = CODE[path] = compile(tree, path, 'exec')
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__.update(self.helpers())
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            name = base + ('.' + name if name else '')
        root = name.split('.')[0]
        if name.startswith(('numpy._core', 'numpy.core')):       # imports made by numpy's C code
            return builtins.__import__(name, globals, locals, fromlist, level)
        if root in ('numpy', 'scipy', 'csaps', 'networkx', 'cached_property', 'typing_extensions', 'matplotlib'):
            full = ''
            for part in name.split('.'):
                full = full + '.' + part if full else part
                if full not in self.stubs:
                    raise Unsupported('import of %s' % full)
            return self.stubs[name] if fromlist else self.stubs[root]
        if root == self.package:
            parts = name.split('.')
            for k in range(1, len(parts) + 1):
                self.load('.'.join(parts[:k]))
            m = self.mods[name]
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.mods[root]
        cd = getattr(self, 'contracts_dir', None)
        if cd and '.' not in name and os.path.exists(os.path.join(cd, name + '.py')):
            if name not in self.mods:
                self.exec_file(name, os.path.join(cd, name + '.py'))
            return self.mods[name]
        return builtins.__import__(name, globals, locals, fromlist, level)
