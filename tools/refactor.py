#!/usr/bin/env python3
"""Self-assessment: change how the code is written, not what it does; every check has to stay quiet and decided.

refactor.py [-t NAME,..] [-j N] [-p PATHSUBSTRING] [--ids C01,..]   (a development tool, no check runs it)
Each transformation is applied to all functions of /repo at once, in memory.
"""
import argparse
import ast
import copy
import json
import multiprocessing
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import harness  # noqa: E402
from sa.model import Model, PACKAGES  # noqa: E402

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def fresh(n=[0]):
    n[0] += 1
    return 'rf_%d' % n[0]


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def assign(x, v):
    return ast.Assign([name(x, True)], v)


def simple(e):
    return isinstance(e, (ast.Constant, ast.Name)) or isinstance(e, ast.Attribute) and simple(e.value)


def is_gen(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(n)
    return False


class T(ast.NodeTransformer):
    """Transforms lists of statements and expressions inside functions only."""

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        n = self.generic_visit(n)
        self.depth -= 1
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Negate(T):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        n = self.generic_visit(n)
        if n.orelse and self.depth and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class NegateAll(T):
    """if c: A  ->  if not c: pass else: A"""

    def visit_If(self, n):
        n = self.generic_visit(n)
        if self.depth:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body
        return n


class Result(T):
    """return e  ->  r = e; return r"""

    def visit_Return(self, n):
        if n.value is None or simple(n.value):
            return n
        v = fresh()
        return [assign(v, n.value), ast.Return(name(v))]

    def visit_Lambda(self, n):
        return n


class Condition(T):
    """if c:  ->  t = c; if t:"""

    def visit_If(self, n):
        n = self.generic_visit(n)
        if not self.depth or simple(n.test) or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            return n
        v = fresh()
        t = n.test
        n.test = name(v)
        return [assign(v, t), n]


class Ternary(T):
    """x = a if c else b  ->  if c: x = a else: x = b"""

    def visit_Assign(self, n):
        if self.depth and isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return n


class BoolSplit(T):
    """if a and b: A  ->  if a: if b: A"""

    def visit_If(self, n):
        n = self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class DeMorgan(T):
    """a and b  ->  not (not a or not b), in conditions"""

    def visit_If(self, n):
        n = self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class LoopComp(T):
    """x = [e for v in it if c]  ->  a loop with append (comprehension becomes a nested function's loop)"""

    def comp(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async or any(
                isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return None
        f, r, a = fresh(), fresh(), fresh()
        g = n.generators[0]
        st = ast.Expr(ast.Call(ast.Attribute(name(r), 'append' if isinstance(n, ast.ListComp) else 'add', ast.Load()), [n.elt], []))
        body = [st]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        init = ast.List([], ast.Load()) if isinstance(n, ast.ListComp) else ast.Call(name('set'), [], [])
        return a, f, ast.FunctionDef(f, ast.arguments([], [ast.arg(a)], None, [], [], None, []), [
            assign(r, init), ast.For(g.target, name(a), body, [], None), ast.Return(name(r))], [], None, None, type_params=[]), g.iter

    def stmt(self, n):
        out = []
        me = self

        class X(ast.NodeTransformer):
            def visit_ListComp(self, c):
                c = self.generic_visit(c)
                r = me.comp(c)
                if r is None or any(isinstance(x, ast.Name) and x.id == '__class__' for x in ast.walk(c)):
                    return c
                if nested[0]:
                    return c
                out.append(r[2])
                return ast.Call(name(r[1]), [r[3]], [])
            visit_SetComp = visit_ListComp

            def visit_Lambda(self, c):
                nested[0] += 1
                c = self.generic_visit(c)
                nested[0] -= 1
                return c
            visit_GeneratorExp = visit_DictComp = visit_Lambda
        nested = [0]
        n = X().visit(n)
        return out + [n] if out else n

    def visit_Assign(self, n):
        return self.stmt(n) if self.depth else n

    def visit_Return(self, n):
        return self.stmt(n)

    def visit_Expr(self, n):
        return self.stmt(n) if self.depth else n


class GenList(T):
    """any(e for ..) -> any([e for ..]) where all is evaluated anyway; tuple()/list() of generators"""

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'dict', 'set', 'sum', 'max', 'min') and n.args and isinstance(n.args[0], ast.GeneratorExp):
            g = n.args[0]
            n.args[0] = ast.ListComp(g.elt, g.generators)
        return n


class Delegate(T):
    """def m(self, a): BODY  ->  def m(self, a): return self._rf(a) ; def _rf(self, a): BODY"""

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, FUNCS) and not s.name.startswith('__init_sub') and not is_gen(s) and \
                    s.name not in ('__new__', '__class_getitem__') and not any(
                        not (isinstance(d, ast.Name) and d.id in ('property', 'overload', 'staticmethod', 'classmethod')
                             ) and not isinstance(d, ast.Attribute) for d in s.decorator_list) and not any(
                        isinstance(d, ast.Name) and d.id in ('overload',) for d in s.decorator_list) and \
                    not any(isinstance(d, ast.Attribute) and d.attr in ('abstractmethod',) for d in s.decorator_list):
                decs = [d.id for d in s.decorator_list if isinstance(d, ast.Name)]
                h = copy.deepcopy(s)
                h.name = '_rf_%s_%s%d' % (n.name.strip('_'), s.name.strip('_'), len(out))
                a = s.args
                allp = a.posonlyargs + a.args
                static = 'staticmethod' in decs
                if not static and not allp:
                    continue
                recv = None if static else name(allp[0].arg)
                rest = allp if static else allp[1:]
                h.decorator_list = [name('staticmethod')] if static else [name('classmethod')] if 'classmethod' in decs else []
                args = [name(p.arg) for p in rest]
                if a.vararg:
                    args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
                kws = [ast.keyword(p.arg, name(p.arg)) for p in a.kwonlyargs]
                if a.kwarg:
                    kws.append(ast.keyword(None, name(a.kwarg.arg)))
                f = ast.Attribute(name(n.name) if static else recv, h.name, ast.Load())
                if static and n.name.startswith('__'):
                    continue
                call = ast.Call(f, args, kws)
                if isinstance(s, ast.AsyncFunctionDef):
                    call = ast.Await(call)
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                s.body = doc + [ast.Return(call)]
                # the helper has no defaults of its own
                out.append(h)
        n.body = out
        return n


class Hoist(T):
    """f(a(), b())  ->  t = a(); u = b(); f(t, u)   for calls that are statements or assigned"""

    def call(self, c):
        if not isinstance(c, ast.Call) or not simple(c.func) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return []
        if isinstance(c.func, ast.Name) and c.func.id in ('super', 'cast', 'locals', 'TypeVar'):
            return []
        out = []
        for i, a in enumerate(c.args):
            if isinstance(a, ast.GeneratorExp):
                continue
            if not isinstance(a, ast.Constant):
                v = fresh()
                out.append(assign(v, a))
                c.args[i] = name(v)
        for k in c.keywords:
            if not isinstance(k.value, ast.Constant):
                v = fresh()
                out.append(assign(v, k.value))
                k.value = name(v)
        return out

    def visit_Expr(self, n):
        return self.call(n.value) + [n] if self.depth else n

    def visit_Assign(self, n):
        return self.call(n.value) + [n] if self.depth else n

    def visit_Return(self, n):
        return self.call(n.value) + [n]


class LambdaDef(T):
    """lambda x: e  ->  a nested function"""

    def stmt(self, n):
        if not self.depth:
            return n
        out = []

        class X(ast.NodeTransformer):
            def visit_Lambda(self, c):
                if nested[0]:
                    return c
                f = fresh()
                out.append(ast.FunctionDef(f, c.args, [ast.Return(c.body)], [], None, None, type_params=[]))
                return name(f)

            def visit_ListComp(self, c):
                nested[0] += 1
                c = self.generic_visit(c)
                nested[0] -= 1
                return c
            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
        nested = [0]
        n = X().visit(n)
        return out + [n] if out else n

    def visit_Assign(self, n):
        return self.stmt(n)

    def visit_Expr(self, n):
        return self.stmt(n)

    def visit_Return(self, n):
        return self.stmt(n)


class WithTry(T):
    """with self.lock:  ->  acquire, try, finally release"""

    def visit_With(self, n):
        n = self.generic_visit(n)
        if len(n.items) == 1 and n.items[0].optional_vars is None and 'lock' in ast.unparse(n.items[0].context_expr).lower() and '(' not in ast.unparse(n.items[0].context_expr):
            e = n.items[0].context_expr
            return [ast.Expr(ast.Call(ast.Attribute(e, 'acquire', ast.Load()), [], [])),
                    ast.Try(n.body, [], [], [ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(e), 'release', ast.Load()), [], []))])]
        return n


class WithEnter(T):
    """with a, b:  ->  with a: with b:"""

    def visit_With(self, n):
        n = self.generic_visit(n)
        while len(n.items) > 1:
            n = ast.With(n.items[:-1], [ast.With([n.items[-1]], n.body)])
        return n


class Enumerate(T):
    """for x in xs:  ->  for i, x in enumerate(xs):"""

    def visit_For(self, n):
        n = self.generic_visit(n)
        if self.depth:
            n.target = ast.Tuple([name(fresh(), True), n.target], ast.Store())
            n.iter = ast.Call(name('enumerate'), [n.iter], [])
        return n


class Items(T):
    """for k, v in d.items():  ->  for k in d.keys()"""

    def visit_For(self, n):
        n = self.generic_visit(n)
        i = n.iter
        if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and i.func.attr == 'items' and simple(i.func.value) and isinstance(n.target, ast.Tuple):
            k, v = n.target.elts
            if isinstance(k, ast.Name):
                n.target = k
                n.iter = i.func.value
                n.body = [ast.Assign([v], ast.Subscript(i.func.value, name(k.id), ast.Load()))] + n.body
        return n


class ForWhile(T):
    """for x in xs: A  ->  it = iter(xs); while True: try: x = next(it) except StopIteration: break; A"""

    def visit_For(self, n):
        n = self.generic_visit(n)
        if n.orelse or not self.depth:
            return n
        v = fresh()
        return [assign(v, ast.Call(name('iter'), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Try(
                    [ast.Assign([n.target], ast.Call(name('next'), [name(v)], []))],
                    [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])] + n.body, [])]


class Else(T):
    """if c: return/raise; rest  ->  if c: return else: rest"""

    def visit_FunctionDef(self, n):
        n = self.generic_visit(n)
        for i, s in enumerate(n.body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = n.body[i + 1:]
                n.body = n.body[:i + 1]
                break
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class TryWrap(T):
    """BODY  ->  try: BODY finally: pass"""

    def visit_FunctionDef(self, n):
        n = self.generic_visit(n)
        if is_gen(n):
            return n
        doc = []
        if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc, n.body = n.body[:1], n.body[1:]
        if n.body and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in n.body):
            n.body = doc + [ast.Try(n.body, [], [], [ast.Pass()])]
        else:
            n.body = doc + n.body
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Reraise(T):
    """BODY  ->  try: BODY except Exception: raise"""

    def visit_FunctionDef(self, n):
        n = self.generic_visit(n)
        if is_gen(n):
            return n
        doc = []
        if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc, n.body = n.body[:1], n.body[1:]
        if n.body and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in n.body):
            n.body = doc + [ast.Try(n.body, [ast.ExceptHandler(name('Exception'), None, [ast.Raise()])], [], [])]
        else:
            n.body = doc + n.body
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Isinst(T):
    """isinstance(x, (A, B))  ->  isinstance(x, A) or isinstance(x, B)"""

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and simple(n.args[0]) and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [copy.deepcopy(n.args[0]), t], []) for t in n.args[1].elts])
        return n


class Private(T):
    """self.__x, __m()  ->  other names"""

    def visit_Attribute(self, n):
        n = self.generic_visit(n)
        if n.attr.startswith('__') and not n.attr.endswith('__'):
            n.attr = n.attr + '_rf'
        return n

    def visit_Name(self, n):
        if n.id.startswith('__') and not n.id.endswith('__') and self.depth == 0 and n.id != '__':
            n.id += '_rf'
        return n

    def visit_FunctionDef(self, n):
        if n.name.startswith('__') and not n.name.endswith('__'):
            n.name += '_rf'
        return self.generic_visit(n)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        if n.name.startswith('__') and not n.name.endswith('__'):
            n.name += '_rf'
        return self.generic_visit(n)


class Locals(T):
    """Local variables get other names."""

    def visit_FunctionDef(self, n):
        if self.depth:
            return n
        inner = [x for x in ast.walk(n) if isinstance(x, FUNCS + (ast.Lambda, ast.ClassDef)) and x is not n]
        glob = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        params = {a.arg for x in [n] + inner if not isinstance(x, ast.ClassDef) for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs + [y for y in (x.args.vararg, x.args.kwarg) if y]}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob - params
        loc = {x for x in loc if not x.startswith('__')}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += '_rf'
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += '_rf'
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Aug(T):
    """x += y  ->  x = x + y for names and attributes"""

    def visit_AugAssign(self, n):
        if simple(n.target) and isinstance(n.value, ast.Constant):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class Noop(T):
    """A statement that does nothing at the start and the end of every block."""

    def visit_FunctionDef(self, n):
        n = self.generic_visit(n)
        doc = []
        if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc, n.body = n.body[:1], n.body[1:]
        n.body = doc + [assign(fresh(), ast.Constant(0)), ast.Expr(ast.Constant(None)), ast.If(ast.Constant(False), [ast.Pass()], [])] + n.body
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Partial(T):
    """self.m(a)  ->  m = self.m; m(a)"""

    def visit_Expr(self, n):
        c = n.value
        if self.depth and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and simple(c.func):
            v = fresh()
            f = c.func
            c.func = name(v)
            return [assign(v, f), n]
        return n


class Subscript(T):
    """d[k] = v  ->  d.update({k: v}) is not the same for all; x.append(y) -> x.extend([y]) / x += [y]"""

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and len(c.args) == 1 and not c.keywords:
            c.func.attr = 'extend'
            c.args = [ast.List([c.args[0]], ast.Load())]
        return n


class Fstring(T):
    """'..{}..'.format(a)  ->  f-string; f-string -> concatenation of str()"""

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            import string
            vals, i = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(n.func.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if fld is None:
                    continue
                if spec or fld not in ('', str(i)):
                    return n
                vals.append(ast.FormattedValue(n.args[i], ord(conv) if conv else -1, None))
                i += 1
            if i != len(n.args):
                return n
            return ast.JoinedStr(vals)
        return n


class Unfstring(T):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            return n
        t = ''.join('{}' if isinstance(v, ast.FormattedValue) else v.value.replace('{', '{{').replace('}', '}}') for v in n.values)
        return ast.Call(ast.Attribute(ast.Constant(t), 'format', ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])


class Literals(T):
    """{} -> dict(), [] -> list()"""

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        return ast.Call(name('dict'), [], []) if not n.keys and self.depth else n

    def visit_List(self, n):
        n = self.generic_visit(n)
        return ast.Call(name('list'), [], []) if not n.elts and self.depth and isinstance(n.ctx, ast.Load) else n


class Walrus(T):
    """x = e; if x ...: -> if (x := e) ..."""

    def generic_visit(self, n):
        n = super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                i = 0
                while i + 1 < len(b):
                    s, t = b[i], b[i + 1]
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.If):
                        first = t.test
                        while True:
                            if isinstance(first, ast.BoolOp):
                                first = first.values[0]
                            elif isinstance(first, ast.Compare):
                                first = first.left
                            elif isinstance(first, ast.UnaryOp):
                                first = first.operand
                            else:
                                break
                        if isinstance(first, ast.Name) and first.id == s.targets[0].id:
                            class R(ast.NodeTransformer):
                                done = False

                                def visit_Name(self, m):
                                    if m is first:
                                        return ast.NamedExpr(name(m.id, True), s.value)
                                    return m
                            t.test = R().visit(t.test)
                            del b[i]
                            continue
                    i += 1
        return n


TRANSFORMS = {c.__name__: c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, T) and c is not T}


def trees(repo, cls, sub):
    out = {}
    for pkg, rel in PACKAGES.items():
        for d, dirs, files in os.walk(os.path.join(repo, rel)):
            for f in files:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    t = ast.parse(open(p, encoding='utf-8').read(), p)
                    if sub in p:
                        t = ast.fix_missing_locations(cls().visit(t))
                        t = ast.parse(ast.unparse(t), p)
                    out[p] = t
    return out


EXTS = json.load(open(os.path.join(HERE, 'drivers', 'known_ext.json')))
CACHE = {}


def run(a):
    tname, pid, sub = a
    if (tname, sub) not in CACHE:
        CACHE.clear()
        CACHE[tname, sub] = trees('/repo', TRANSFORMS[tname], sub)
    m = Model('/repo', CACHE[tname, sub])
    out = []
    for r in harness.run_drivers(m, pid, set(EXTS.get(pid, ())) or None, 'quick', None):
        for f in r.findings:
            out.append('%s %s: ALARM %s | %s @ %s' % (tname, r.name, f.text, f.rule[-160:], f.place))
        if r.undecided:
            out.append('%s %s: undecided %s' % (tname, r.name, r.undecided[:200]))
        elif sum(r.maybe.values()):
            out.append('%s %s: maybe %s' % (tname, r.name, [r.texts[L] for L in r.maybe if r.maybe[L]][:2]))
        elif r.weak or r.cut:
            out.append('%s %s: weak %d cut %d' % (tname, r.name, r.weak, r.cut))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-t', default='')
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('-p', default='')
    ap.add_argument('--ids', default='')
    ap.add_argument('--show', default='')
    A = ap.parse_args()
    ts = A.t.split(',') if A.t else list(TRANSFORMS)
    if A.show:
        print(ast.unparse(trees('/repo', TRANSFORMS[ts[0]], A.show)[A.show]))
        return
    ids = A.ids.split(',') if A.ids else sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'drivers')) if f[0] == 'c' and f[1:3].isdigit())
    with multiprocessing.Pool(A.j) as pool:
        for t in ts:
            n = 0
            for out in pool.imap_unordered(run, [(t, p, A.p) for p in ids]):
                for x in out:
                    n += 1
                    print(x, flush=True)
            print('==', t, n, flush=True)


if __name__ == '__main__':
    main()
