"""Load the real melodist sources: mechanical AST rewriting, then native execution.

What the rewriting changes (nothing else): float literals become exact
rationals, '/' becomes exact division, single-generator list comprehensions and
for loops are routed through rt so that a loop with a symbolic number of
iterations can be cut at its head, bare 'except:' becomes 'except Exception',
string formatting of symbolic values yields a placeholder.  numpy / pandas /
scipy are replaced by the modelled operations of npshim / pdshim.
"""
import ast
import builtins
import copy
import os
import sys
import types

from . import core, loops, rt
from .core import Unsupported


class Scope(ast.NodeVisitor):
    """names assigned in a function body (not in nested functions)"""

    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)


def assigned(stmts):
    s = Scope()
    for x in stmts:
        s.visit(x)
    return s.names


def call(fn, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id='__rt__', ctx=ast.Load()), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


class HasYield(ast.NodeVisitor):
    found = False

    def visit_Yield(self, n):
        self.found = True

    visit_YieldFrom = visit_Yield


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.func = []

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call('q', ast.Constant(value=repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(call('div', n.left, n.right), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(call('strmod', n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            return ast.copy_location(ast.Assign(targets=[n.target], value=call('idiv', load, n.value)), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args=args([g.target.id]), body=body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(args=args([e.id for e in g.target.elts]), body=body)
                return ast.Lambda(args=args(['__t']), body=ast.Call(
                    func=inner, args=[ast.Starred(value=ast.Name(id='__t', ctx=ast.Load()), ctx=ast.Load())], keywords=[]))
            return None
        f = lam(n.elt)
        if f is None:
            return n
        a = [f, g.iter]
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            a.append(lam(c))
        return ast.copy_location(call('comp', *a), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.type = ast.Name(id='Exception', ctx=ast.Load())
        return n

    # ---- functions and loops
    def visit_FunctionDef(self, n):
        self.func.append((n, assigned(n.body) | {a.arg for a in n.args.args + n.args.kwonlyargs}))
        n = self.generic_visit(n)
        self.func.pop()
        return n

    def visit_For(self, n):
        if not self.func or n.orelse:
            return self.generic_visit(n)
        y = HasYield()
        y.visit(n)
        if y.found:
            return self.generic_visit(n)
        plain = copy.deepcopy(n)
        self.n += 1
        uid = '%s_%d' % (self.mod.replace('.', '_'), n.lineno)
        local = self.func[-1][1]
        names = sorted((assigned(n.body) | assigned([ast.Assign(targets=[n.target], value=ast.Constant(value=0))])) & local)
        plain = self.generic_visit(plain)
        body = [self.visit(copy.deepcopy(s)) for s in n.body]
        body = [x for b in body for x in (b if isinstance(b, list) else [b])]
        body = [BodyExit().visit(s) for s in body]
        it = self.visit(copy.deepcopy(n.iter))
        L, B, G, S, X = ('__loop%d' % self.n, '__body%d' % self.n, '__get%d' % self.n, '__set%d' % self.n, '__it%d' % self.n)
        # body as a function on the enclosing locals
        tgt = ast.Assign(targets=[copy.deepcopy(n.target)], value=ast.Name(id='__x', ctx=ast.Load()))
        nl = [ast.Nonlocal(names=list(names))] if names else []
        bodyf = ast.FunctionDef(name=B, args=args(['__x']), body=nl + [tgt] + body + [ret(('next', None))], decorator_list=[], type_params=[])
        getb = []
        for v in names:
            getb.append(ast.Try(
                body=[ast.Assign(targets=[ast.Subscript(value=ast.Name(id='__d', ctx=ast.Load()), slice=ast.Constant(value=v), ctx=ast.Store())],
                                 value=ast.Name(id=v, ctx=ast.Load()))],
                handlers=[ast.ExceptHandler(type=ast.Name(id='NameError', ctx=ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
        getf = ast.FunctionDef(name=G, args=args([]), body=[ast.Assign(targets=[ast.Name(id='__d', ctx=ast.Store())], value=ast.Dict(keys=[], values=[]))]
                               + getb + [ast.Return(value=ast.Name(id='__d', ctx=ast.Load()))], decorator_list=[], type_params=[])
        setb = list(nl)
        for v in names:
            setb.append(ast.If(test=ast.Compare(left=ast.Constant(value=v), ops=[ast.In()], comparators=[ast.Name(id='__d', ctx=ast.Load())]),
                               body=[ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=ast.Subscript(
                                   value=ast.Name(id='__d', ctx=ast.Load()), slice=ast.Constant(value=v), ctx=ast.Load()))], orelse=[]))
        setf = ast.FunctionDef(name=S, args=args(['__d']), body=(copy.deepcopy(setb) if len(setb) > len(nl) else [ast.Pass()]), decorator_list=[], type_params=[])
        run = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())], value=ast.Call(
            func=ast.Attribute(value=ast.Name(id='__loops__', ctx=ast.Load()), attr='run', ctx=ast.Load()),
            args=[ast.Constant(value=uid), ast.Name(id=X, ctx=ast.Load())] + [ast.Name(id=z, ctx=ast.Load()) for z in (B, G, S)], keywords=[]))
        ifret = ast.If(test=ast.Compare(left=ast.Name(id=L, ctx=ast.Load()), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)]),
                       body=[ast.Return(value=ast.Subscript(value=ast.Name(id=L, ctx=ast.Load()), slice=ast.Constant(value=0), ctx=ast.Load()))], orelse=[])
        plain.iter = ast.Name(id=X, ctx=ast.Load())
        seti = ast.Assign(targets=[ast.Name(id=X, ctx=ast.Store())], value=it)
        test = call('is_symbolic', ast.Name(id=X, ctx=ast.Load()))
        out = [seti, ast.If(test=test, body=[bodyf, getf, setf, run, ifret], orelse=[plain])]
        return [ast.copy_location(x, n) for x in out]


class BodyExit(ast.NodeTransformer):
    """break/continue/return of the loop body -> return codes (not inside nested loops' break/continue)"""

    def __init__(self, depth=0):
        self.depth = depth

    def visit_For(self, n):
        b = BodyExit(self.depth + 1)
        n.body = [b.visit(s) for s in n.body]
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Break(self, n):
        return ret(('break', None)) if self.depth == 0 else n

    def visit_Continue(self, n):
        return ret(('next', None)) if self.depth == 0 else n

    def visit_Return(self, n):
        return ast.Return(value=ast.Tuple(elts=[ast.Constant(value='return'), n.value or ast.Constant(value=None)], ctx=ast.Load()))


def ret(t):
    return ast.Return(value=ast.Tuple(elts=[ast.Constant(value=t[0]), ast.Constant(value=t[1])], ctx=ast.Load()))


def args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


_CODE = {}


class Loader:
    """a fresh copy of the melodist package built from the sources under root"""

    def __init__(self, root):
        from . import npshim, pdshim
        self.root = root
        self.mods = {}
        self.sources = {}
        self.shims = dict(npshim.modules())
        self.shims.update(pdshim.modules())
        self.patched = []

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        top = full.split('.')[0]
        if top == 'melodist':
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._path(full + '.' + f):
                        self.load(full + '.' + f)
                return m
            return self.mods['melodist']
        if top in self.shims:
            if fromlist:
                return self.shims[full]
            return self.shims[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _path(self, full):
        p = os.path.join(self.root, *full.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        if '.' in full:
            parent = full.rsplit('.', 1)[0]
            self.load(parent)
            if full in self.mods:
                return self.mods[full]
        path = self._path(full)
        if path is None:
            raise ImportError(full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if path.endswith('__init__.py') else full.rsplit('.', 1)[0]
        if path.endswith('__init__.py'):
            m.__path__ = [os.path.dirname(path)]
        b = dict(builtins.__dict__)
        b.update(rt.SHIMS)
        b['__import__'] = self._import
        b['open'] = self.shims['__open__']
        m.__dict__['__builtins__'] = b
        m.__dict__['__rt__'] = rt
        m.__dict__['__loops__'] = loops
        self.mods[full] = m
        with open(path, encoding='utf-8') as f:
            src = f.read()
        self.sources[full] = src
        code = _CODE.get((full, src))
        if code is None:
            tree = ast.parse(src, path)
            tree = Rewrite(full).visit(tree)
            ast.fix_missing_locations(tree)
            code = _CODE[(full, src)] = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        if '.' in full:
            parent, leaf = full.rsplit('.', 1)
            setattr(self.mods[parent], leaf, m)
        return m

    def package(self):
        return self.load('melodist')

    def patch(self, qual, fn):
        """replace a function by its contract everywhere it is bound"""
        modname, name = qual.rsplit('.', 1)
        m = self.mods.get(modname)
        old = getattr(m, name, None) if m else None
        if old is None:
            return None
        for mm in self.mods.values():
            for k, v in list(mm.__dict__.items()):
                if v is old:
                    self.patched.append((mm, k, old))
                    mm.__dict__[k] = fn
        return old

    def unpatch(self):
        for mm, k, old in reversed(self.patched):
            mm.__dict__[k] = old
        self.patched = []
