"""Mechanical extraction of the verified text.

Every module of /repo/crazy_complete is parsed on every run, rewritten by the
purely syntactic rules below, compiled and imported as package `vcc`.  Nothing
is dropped: every statement and expression of the original is still executed,
in the original order; the rewriting only routes operations whose built-in
implementation cannot carry a symbolic value through `__vc__`:

    a in b / a is b / not a      -> __vc__.contains / is_ / not_
    f(x) for builtin names       -> __vc__.bi('f', f, x)
    o.m(x)                       -> __vc__.callm(o, 'm', x)
    o[i] (load), o[i] = v        -> __vc__.getitem / __vc__.setitem
    a % b, f-strings             -> __vc__.mod / __vc__.fstr
    tests of if/while/and/or     -> __vc__.truth
    for-loops                    -> the iterable goes through __vc__.loop and the
                                    names assigned by the body through carry/exitval
    comprehensions               -> __vc__.comp with the same element/condition code

With no symbolic value involved each of these hooks performs exactly the
original operation (cross-checked in pydv/selftest.py by running the
instrumented package against the original one).
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'vcc'
HOOKED = {'len', 'isinstance', 'int', 'str', 'sorted', 'map', 'filter', 'list',
          'tuple', 'set', 'frozenset', 'any', 'all', 'max', 'min', 'range',
          'enumerate', 'reversed', 'zip', 'type', 'repr', 'bool', 'sum', 'iter',
          'next', 'dict', 'getattr', 'ord', 'id', 'hash'}


def _name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def _vc(attr, *args):
    return ast.Call(ast.Attribute(_name('__vc__'), attr, ast.Load()), list(args), [])


def _assigned(stmts):
    names = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.append(n.name)

        def visit_ClassDef(self, n):
            names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.append(n.id)

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
    for s in stmts:
        V().visit(s)
    out = []
    for n in names:
        if n not in out and not n.startswith('__vc'):
            out.append(n)
    return out


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.n = 0

    # -- scopes
    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.body = self._stmts(node.body)
        self.fn.pop()
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    def visit_ClassDef(self, node):
        self.fn.append(None)
        node.body = self._stmts(node.body)
        self.fn.pop()
        return node

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _infn(self):
        return bool(self.fn) and self.fn[-1] is not None

    # -- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _vc('contains', l, r)
            if isinstance(op, ast.NotIn):
                return _vc('not_', _vc('contains', l, r))
            if isinstance(op, ast.Is):
                return _vc('is_', l, r)
            if isinstance(op, ast.IsNot):
                return _vc('not_', _vc('is_', l, r))
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _vc('not_', node.operand)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        # value semantics: the operands (except the last) are only tested
        fname = 'and_' if isinstance(node.op, ast.And) else 'or_'
        expr = node.values[-1]
        for v in reversed(node.values[:-1]):
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), expr)
            expr = _vc(fname, v, lam)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return node
        if self.fn and self.fn[-1] is None:
            return node          # class scope: lambdas do not see class names
        return expr

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = _vc('truth', node.test)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _vc('mod', node.left, node.right)
        if isinstance(node.op, ast.Add):
            return _vc('add', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(None) if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _vc('fstr', ast.List(parts, ast.Load()))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            idx = node.slice
            if isinstance(idx, ast.Slice):
                idx = ast.Call(_name('slice'), [idx.lower or ast.Constant(None),
                                                idx.upper or ast.Constant(None),
                                                idx.step or ast.Constant(None)], [])
            return _vc('getitem', node.value, idx)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                node.args = [self.visit(a) for a in node.args]
                node.keywords = [self.visit(k) for k in node.keywords]
                return node
            obj = self.visit(f.value)
            c = _vc('callm', obj, ast.Constant(f.attr), *[self.visit(a) for a in node.args])
            c.keywords = [self.visit(k) for k in node.keywords]
            return c
        self.generic_visit(node)
        if isinstance(f, ast.Name) and f.id in HOOKED:
            c = _vc('bi', ast.Constant(f.id), _name(f.id), *node.args)
            c.keywords = node.keywords
            return c
        return node

    # -- comprehensions
    def _comp(self, kind, node, elt):
        if any(g.is_async for g in node.generators) or (self.fn and self.fn[-1] is None):
            self.generic_visit(node)
            return node
        gens = node.generators
        inner = self.visit(elt)
        expr = None
        for i in range(len(gens) - 1, -1, -1):
            g = gens[i]
            names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]

            def lam(body, names=names, g=g):
                # lambda __vc_x: [ body for target in (__vc_x,) ][0]
                t = ast.parse('0').body  # noqa: placeholder
                lc = ast.ListComp(body, [ast.comprehension(
                    g.target, ast.Tuple([_name('__vc_x')], ast.Load()), [], 0)])
                sub = ast.Subscript(lc, ast.Constant(0), ast.Load())
                return ast.Lambda(ast.arguments([], [ast.arg('__vc_x')], None, [], [], None, []), sub)
            conds = ast.List([lam(self.visit(c)) for c in g.ifs], ast.Load())
            body = inner if expr is None else expr
            k = kind if i == 0 else 'list'
            flat = ast.Constant(i != len(gens) - 1)
            expr = _vc('comp', ast.Constant(k), self.visit(g.iter), lam(body), conds, flat)
        return expr

    def visit_ListComp(self, node):
        return self._comp('list', node, node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp('gen', node, node.elt)

    def visit_SetComp(self, node):
        return self._comp('set', node, node.elt)

    def visit_DictComp(self, node):
        return self._comp('dict', node, ast.Tuple([node.key, node.value], ast.Load()))

    # -- statements
    def visit_If(self, node):
        node.test = _vc('truth', self.visit(node.test))
        node.body = self._stmts(node.body)
        node.orelse = self._stmts(node.orelse)
        return node

    def visit_While(self, node):
        node.test = _vc('truth', self.visit(node.test))
        node.body = self._stmts(node.body)
        node.orelse = self._stmts(node.orelse)
        if self._infn():
            self.n += 1
            lid = '%s.%s#w%d' % (self.mod, self.fn[-1], self.n)
            loc = ast.Call(_name('locals'), [], [])
            names = _assigned(node.body)
            node.body.insert(0, ast.Expr(_vc('wtick', ast.Constant(lid))))
            # cut rule (vc.py: whead): the state of an arbitrary iteration is put in front of the loop
            pre = [ast.Expr(_vc('wenter', ast.Constant(lid), loc))]
            for n in names:
                pre.append(ast.If(_vc('wgen', ast.Constant(lid), ast.Constant(n), loc),
                                  [ast.Assign([_name(n, ast.Store())], _vc('wcarry', ast.Constant(lid), ast.Constant(n), loc))], []))
            node.test = ast.BoolOp(ast.And(), [_vc('whead', ast.Constant(lid), loc), node.test])
            return pre + [node]
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(_vc('setitem', self.visit(t.value), self.visit(t.slice), self.visit(node.value)))
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and isinstance(node.op, ast.Add):
            return ast.Assign([node.target], _vc('iadd', _name(node.target.id), self.visit(node.value)))
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        it = self.visit(node.iter)
        body = self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        if not self._infn():
            node.iter, node.body, node.orelse = it, body, orelse
            return node
        self.n += 1
        lid = '%s.%s#%d' % (self.mod, self.fn[-1], self.n)
        tnames = [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)]
        names = [n for n in _assigned(node.body) if n not in tnames]
        loc = ast.Call(_name('locals'), [], [])
        item = '__vc_it%d' % self.n
        pre = [ast.Assign([node.target], _name(item))]
        for n in names:
            pre.append(ast.If(_vc('gen', ast.Constant(lid), ast.Constant(n), loc),
                              [ast.Assign([_name(n, ast.Store())], _vc('carry', ast.Constant(lid), ast.Constant(n)))], []))
        post = []
        for n in names + tnames:
            post.append(ast.If(_vc('genexit', ast.Constant(lid), ast.Constant(n), loc),
                               [ast.Assign([_name(n, ast.Store())], _vc('exitval', ast.Constant(lid), ast.Constant(n)))], []))
        return ast.For(_name(item, ast.Store()), _vc('loop', ast.Constant(lid), it,
                       ast.Tuple([ast.Constant(n) for n in names], ast.Load())),
                       pre + body, post + orelse)


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, path, modname):
        self.path, self.modname = path, modname

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import vc
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = compile(transform(src, self.path, self.modname), self.path, 'exec')
        module.__dict__['__vc__'] = vc.API
        exec(code, module.__dict__)  # pylint: disable=exec-used


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname == PKG:
            p = os.path.join(REPO, 'crazy_complete', '__init__.py')
            return importlib.machinery.ModuleSpec(fullname, Loader(p, '__init__'), origin=p, is_package=True)
        if fullname.startswith(PKG + '.'):
            m = fullname[len(PKG) + 1:]
            p = os.path.join(REPO, 'crazy_complete', m + '.py')
            if os.path.exists(p):
                return importlib.machinery.ModuleSpec(fullname, Loader(p, m), origin=p)
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def mod(name):
    """The instrumented module (current source of /repo)."""
    install()
    import importlib
    return importlib.import_module(PKG + '.' + name if name else PKG)


def real(name):
    """The unmodified module, for replays and bounded checks."""
    install()
    import importlib
    return importlib.import_module('crazy_complete.' + name if name else 'crazy_complete')
