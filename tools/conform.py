#!/usr/bin/env python3
"""Self-assessment: the analysis has to compute what CPython computes, on snippets of our own.

conform.py [NAME ..]     (a development tool, no check runs it; nothing of /repo is run)
"""
import ast
import importlib.util
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import harness  # noqa: E402
from sa.model import Model  # noqa: E402

PATH = os.path.join(HERE, 'tools', 'conform', 'snippets.py')


def main():
    spec = importlib.util.spec_from_file_location('snippets', PATH)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    src = open(PATH).read()
    names = sys.argv[1:] or [n for n in dir(mod) if n.startswith('t_')]
    drv = []
    for n in names:
        want = getattr(mod, n)()
        for i, w in enumerate(want if isinstance(want, list) else [want]):
            sub = '[%d]' % i if isinstance(want, list) else ''
            try:
                if ast.literal_eval(repr(w)) != w:
                    raise ValueError
                drv.append((n, i, 'def d_%s_%d():\n    got = %s()%s\n    show(got)\n    check(got == %r, "same")\n' % (n, i, n, sub, w)))
            except Exception:
                print('not a literal', n, i, w)
        if isinstance(want, list):
            drv.append((n, 'len', 'def d_%s_len():\n    check(len(%s()) == %d, "same")\n' % (n, n, len(want))))
    os.makedirs('/tmp/conform', exist_ok=True)
    p = '/tmp/conform/cx.py'
    open(p, 'w').write(src + '\n\n' + '\n\n'.join(d for _, _, d in drv))
    model = Model('/repo', {})
    harness.drivers_of(model, 'c01')
    m = model.add_module('drv.conform', p)
    bad = 0
    fns = {s.name: s for s in m.tree.body if isinstance(s, ast.FunctionDef)}
    for n, i, _ in drv:
        r = harness.Runner(model, m, fns['d_%s_%s' % (n, i)], None, {}, 'quick').go()
        st = 'undecided ' + r.undecided[:150] if r.undecided else 'WRONG ' + r.findings[0].rule[-150:] if r.findings else \
            'maybe' if sum(r.maybe.values()) else 'cut' if r.cut else None if sum(r.held.values()) else 'nothing'
        if st:
            bad += 1
            print(n, i, st, flush=True)
            if i == 0 or i == 'len':
                pass
    print(len(drv), 'checked,', bad, 'bad')


if __name__ == '__main__':
    main()
