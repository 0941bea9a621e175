#!/usr/bin/env python3
"""Self-assessment: mutate functions of /repo in memory, see which mutants no check notices.

mutate.py [-o OUT] [-j N] [-p PATHSUBSTRING] [-s STRIDE]  (a development tool, no check runs it)
"""
import argparse
import ast
import copy
import json
import multiprocessing
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import harness  # noqa: E402
from sa.model import Model, PACKAGES  # noqa: E402

SKIP_FUNCS = {'__repr__', 'describe', '__str__'}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
       ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def is_logging(s):
    t = ast.unparse(s)
    return isinstance(s, ast.Expr) and ('logger' in t.split('(')[0] or t.startswith(('print', 'warnings.', '_logger')))


def mutants(fn):
    """Yield (description, apply(copy of fn)) for one function node."""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if is_doc(s) or is_logging(s) or isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        continue
                    if isinstance(s, ast.Raise) and s.exc is None and False:
                        continue

                    def dele(m, fld=fld, j=j):
                        getattr(m, fld)[j] = ast.copy_location(ast.Pass(), getattr(m, fld)[j])
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Return, ast.Continue, ast.Break, ast.Assert, ast.If)):
                        yield i, s.lineno, 'del: ' + ast.unparse(s)[:90], dele
                    if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(b[j + 1], (ast.Expr, ast.Assign)) and not is_logging(b[j + 1]):
                        def swap(m, fld=fld, j=j):
                            L = getattr(m, fld)
                            L[j], L[j + 1] = L[j + 1], L[j]
                        yield i, s.lineno, 'swap: ' + ast.unparse(s)[:60] + ' <> ' + ast.unparse(b[j + 1])[:40], swap
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def neg(m):
                m.test = ast.copy_location(ast.UnaryOp(ast.Not(), m.test), m.test)
            yield i, ln, 'neg: ' + ast.unparse(n.test)[:80], neg
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                def drop(m, k=k):
                    del m.values[k]
                    if len(m.values) == 1:
                        m.values.append(m.values[0])
                yield i, ln, 'dropcond: %s of %s' % (ast.unparse(n.values[k])[:50], ast.unparse(n)[:60]), drop

            def andor(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield i, ln, 'andor: ' + ast.unparse(n)[:80], andor
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def cmp(m):
                m.ops = [CMP[type(m.ops[0])]()]
            yield i, ln, 'cmp: ' + ast.unparse(n)[:80], cmp
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            def const(m):
                v = m.value
                m.value = (not v) if isinstance(v, bool) else v + 1
            yield i, ln, 'const: %r' % (n.value,), const
        if isinstance(n, ast.Call):
            if n.keywords:
                for k, kw in enumerate(n.keywords):
                    def dk(m, k=k):
                        del m.keywords[k]
                    yield i, ln, 'dropkw: %s in %s' % (kw.arg, ast.unparse(n)[:70]), dk
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def sw(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield i, ln, 'swapargs: ' + ast.unparse(n)[:80], sw
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            def exh(m):
                m.type = ast.copy_location(ast.Name('ZeroDivisionError', ast.Load()), m.type)
            yield i, ln, 'except: ' + ast.unparse(n.type), exh
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            def sl(m):
                m.slice = ast.copy_location(ast.Slice(None, None, None), n)
            yield i, ln, 'slice: ' + ast.unparse(n)[:70], sl
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and n.generators[0].ifs:
            def df(m):
                m.generators[0].ifs = []
            yield i, ln, 'dropfilter: ' + ast.unparse(n)[:80], df


def functions(mod):
    """(qualname, node) of every function, methods by dotted path; nested ones are part of their parent."""
    def rec(body, pre):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + '.' + s.name, s
            elif isinstance(s, ast.ClassDef):
                yield from rec(s.body, pre + '.' + s.name)
            elif isinstance(s, (ast.If, ast.Try)):
                yield from rec(s.body, pre)
    yield from rec(mod.tree.body, mod.name)


BASE = None
TREES = {}
EXTS = json.load(open(os.path.join(HERE, 'drivers', 'known_ext.json')))


def load_trees(repo):
    for pkg, rel in PACKAGES.items():
        for d, dirs, files in os.walk(os.path.join(repo, rel)):
            for f in files:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    TREES[p] = ast.parse(open(p, encoding='utf-8').read(), p)


def run_one(pid, drv, overrides):
    m = Model('/repo', overrides)
    return harness.run_drivers(m, pid, set(EXTS.get(pid, ())) or None, 'quick', [drv])[0]


def baseline(a):
    pid, drv = a
    r = run_one(pid, drv, TREES)
    return pid, drv, sorted(r.visited), r.wall, len(r.findings), r.undecided


def job(a):
    path, qual, lineno, idx, desc, drivers, fi, mi = a
    import signal
    tree = TREES[path]
    # locate function fi-th
    mod = type('M', (), {})()
    new = copy.deepcopy(tree)
    mod.tree, mod.name = new, 'x'
    fn = list(functions(mod))[fi][1]
    ms = list(mutants(fn))
    i, ln, d, ap = ms[mi]
    node = list(ast.walk(fn))[i]
    ap(node)
    ast.fix_missing_locations(new)
    ov = dict(TREES)
    ov[path] = new
    und = []
    t0 = time.time()
    for pid, drv in drivers:
        try:
            r = run_one(pid, drv, ov)
        except harness.MissingAnchor:
            und.append((pid, drv, 'missing'))
            continue
        if r.findings:
            return ('killed', pid, drv, r.findings[0].text)
        if r.undecided:
            und.append((pid, drv, r.undecided[:80]))
        elif sum(r.maybe.values()):
            und.append((pid, drv, 'maybe ' + str([r.texts[L] for L in r.maybe if r.maybe[L]][:2])))
        elif r.weak:
            und.append((pid, drv, 'weak'))
        if time.time() - t0 > 240:
            und.append((pid, drv, 'TIME'))
            break
    return ('undecided' if und else 'survived', und[:3], None, None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-o', default='/tmp/mut/out.jsonl')
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('-p', default='')
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-q', default='')
    ap.add_argument('--ids', default='')
    ap.add_argument('--skip', default='', help='results of a former run: what was killed there is left out')
    A = ap.parse_args()
    load_trees('/repo')
    model = Model('/repo', TREES)
    todo = []
    for f in sorted(os.listdir(os.path.join(HERE, 'drivers'))):
        if f[0] == 'c' and f[1:3].isdigit() and f.endswith('.py'):
            pid = f[:-3].upper()
            if A.ids and pid not in A.ids.split(','):
                continue
            t = ast.parse(open(os.path.join(HERE, 'drivers', f)).read())
            todo += [(pid, s.name) for s in t.body if isinstance(s, ast.FunctionDef) and s.name.startswith('d_')]
    by = {}
    with multiprocessing.Pool(A.j, maxtasksperchild=20) as pool:
        for pid, drv, vis, wall, nf, und in pool.imap_unordered(baseline, todo):
            if nf or und:
                print('baseline problem', pid, drv, nf, und)
            for q in vis:
                by.setdefault(q, []).append((wall, pid, drv))
        for q in by:
            by[q].sort()
        jobs = []
        nov = set()
        for name, mi in sorted(model.modules.items()):
            if A.p not in mi.path or not mi.path.startswith('/repo'):
                continue
            for fi, (q, fn) in enumerate(functions(mi)):
                if fn.name in SKIP_FUNCS or A.q not in q:
                    continue
                drv = []
                pre = q
                parts = q.split('.')
                if parts[-1].startswith('__') and not parts[-1].endswith('__'):
                    pass
                for k, v in by.items():
                    if k == q or k.startswith(q + '.'):
                        drv += v
                if not drv:
                    nov.add(q)
                    continue
                drv = sorted(set(drv))
                for m, (i, ln, d, _) in enumerate(mutants(fn)):
                    jobs.append((mi.path, q, ln, i, d, [(p, x) for _, p, x in drv], fi, m))
        for q in sorted(nov):
            print('not visited:', q)
        jobs = jobs[::A.s]
        if A.skip:
            done = [json.loads(x) for f in A.skip.split(',') for x in open(f)]
            done = {(d[1], d[2], d[3]) for d in done if d[4][0] == 'killed'}
            jobs = [j for j in jobs if (j[1], j[2], j[4]) not in done]
        print(len(jobs), 'mutants', flush=True)
        n = {}
        out = open(A.o, 'w')
        rs = [(j, pool.apply_async(job, (j,))) for j in jobs]
        for j, r in rs:
            try:
                res = r.get()
            except Exception as e:
                res = ('error', repr(e), None, None)
            n[res[0]] = n.get(res[0], 0) + 1
            out.write(json.dumps([j[0], j[1], j[2], j[4], res, len(j[5])]) + '\n')
            out.flush()
        print(n)


if __name__ == '__main__':
    main()
