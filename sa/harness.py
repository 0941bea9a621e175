"""Obligations: protocol drivers, abstractly executed against the analysed source.

A driver is a small program in /verif/drivers that uses the analysed code through its public
interface.  It is never run: `Interp` evaluates it abstractly, together with everything it reaches
in /repo.  Its ``check(cond, text)`` calls are the proof obligations.  ``check`` is three valued:
an obligation is violated only in a partition where the condition is definitely false.
"""
import ast
import json
import os
import time

from . import ext
from .interp import Budget, Frame, Interp, Unsupported
from .model import ClassInfo, Model
from .sample import counterexample
from .values import (ModV, boolc, BoundV, ClassV, Const, CoroV, DELETED, ExtV, FALSE, FuncV, HDict, HIter,
                     HList, HObj, NONE, PartialV, Raise, Ref, Seg, State, Sym, TRUE, TupleV)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVERS = os.path.join(HERE, 'drivers')


class MissingAnchor(Exception):
    pass


class Finding:
    def __init__(self, driver, text, kind, rule, place, path, facts):
        self.driver, self.text, self.kind, self.rule = driver, text, kind, rule
        self.place, self.path, self.facts = place, path, facts

    @property
    def key(self):
        return '%s :: %s' % (self.driver, self.text)


class Result:
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.held = {}          # check line -> number of partitions in which it definitely held
        self.maybe = {}
        self.failed = {}
        self.weak = 0
        self.texts = {}
        self.ends = 0
        self.cut = 0
        self.pruned = 0
        self.undecided = None
        self.steps = 0
        self.wall = 0.0
        self.visited = set()
        self.callsites = set()
        self.covers = {}
        self.exts = set()
        self.notes = set()


def site(e):
    return '%s:%s' % (e.file, e.line)


def mentions(key, a):
    return key == a or isinstance(key, tuple) and any(mentions(k, a) for k in key)


class Runner:
    """Runs one driver function."""

    def __init__(self, model, drvmod, node, known_ext, options, tier):
        self.model, self.mod, self.node = model, drvmod, node
        self.known_ext = known_ext
        self.tier = tier
        self.options = options
        self.res = Result(drvmod.name.split('.')[-1] + '.' + node.name)
        self.res.rule = self.rule = ' '.join((ast.get_docstring(node) or node.name).split())
        big = tier == 'thorough'
        self.I = I = Interp(model, budget=options.get('budget', 2000000) * (6 if big else 1),
                            max_paths=options.get('max_paths', 12000) * (4 if big else 1),
                            unroll=tuple(options.get('unroll', (0, 1, 2) if big else (0, 1))),
                            max_while=options.get('max_while', 4) + (2 if big else 0))
        I.deadline = time.time() + (options.get('seconds', 240) * (5 if big else 1))
        I.intrinsics = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('i_')}
        self.seen = set()
        self.inputs = {}        # the unknown values of the driver -> their types

    # -------------------------------------------------- running
    def go(self):
        I, t0 = self.I, time.time()
        st = State()
        ext.init_state(st)
        if not self.options.get('real_loggers'):
            I.hooks['launch.logging.get_logger'] = self.logger
        fr = I.mod_frame(st, self.mod)
        try:
            for s, f in I.mod_lookup(st, self.mod, self.node.name, fr, None):
                for s2, v in I.call_func(f, [], {}, s, fr, None, None):
                    if 'pruned' in s2.meta:
                        self.res.pruned += 1
                        continue
                    self.res.ends += 1
                    if isinstance(v, Raise):
                        self.escaped(s2, v)
            self.diverged()
        except (Unsupported, Budget) as e:
            self.diverged()
            self.res.undecided = '%s: %s' % (type(e).__name__, e)
        except MissingAnchor:
            raise
        except RecursionError as e:
            self.res.undecided = 'recursion: %s' % e
        except Exception as e:
            # a defect of the analyser never becomes an alarm
            if os.environ.get('SA_DEBUG'):
                raise
            self.res.undecided = 'internal %s: %s' % (type(e).__name__, e)
        r = self.res
        r.cut = I.cut
        r.steps = I.steps
        r.wall = time.time() - t0
        r.visited = {q for q in I.visited if not q.startswith('drv.')}
        r.callsites = {c for c in I.callsites if c[0] and not c[0].startswith(DRIVERS)}
        r.notes = set(I.unknown)
        r.exts = set(I.callorigin.values()) | {'note:' + n for n in I.unknown}
        if r.undecided is None and not r.findings and not r.weak and not r.cut:
            for c in ast.walk(self.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                        c.func.id == 'check' and len(c.args) == 2 and \
                        c.lineno not in {L[0] for L in r.texts}:
                    t = c.args[1].value if isinstance(c.args[1], ast.Constant) else 'check'
                    self.finding(None, t, 'unreached',
                                 'the protocol never gets to the point of this obligation')
        if r.undecided is None:
            for text, (hit, maybe) in r.covers.items():
                if not hit and not maybe:
                    self.finding(None, text, 'unreachable',
                                 'no analysed path reaches the required outcome')
        return r

    def logger(self, I, st, c):
        return [(st, Sym(('s', 'logger'), nonnull=True))]

    # -------------------------------------------------- findings
    def weak(self, st):
        """The partition rests on the unknown result of a call the analysis has no model for."""
        if self.known_ext is None:
            return False

        def bad(k):
            if not isinstance(k, tuple):
                return False
            o = self.I.callorigin.get(k)
            if o is not None and o not in self.known_ext:
                return True
            return any(bad(x) for x in k)
        for n in self.I.unknown:
            if 'note:' + n not in self.known_ext:
                return True
        return any(bad(k) for k in st.facts)

    def finding(self, st, text, kind, detail, node=None):
        name = self.res.name
        if st is not None and self.weak(st):
            self.res.weak += 1
            return
        k = (text, kind)
        if k in self.seen:
            return
        self.seen.add(k)
        path, place, cases = [], None, []
        if st is not None:
            for e in st.events():
                if e.file is None or e.file.startswith(DRIVERS):
                    if e.kind == 'pick':
                        try:
                            cases.append('  [driver] case %r' % (ext.to_py(st, e.args[0]),))
                        except Exception:
                            cases.append('  [driver] case %r' % (e.args[0],))
                    if e.kind == 'log':
                        path.append('  [driver] %s %s' % (e.target, ', '.join(map(repr, e.args))))
                    continue
                if e.kind in ('call', 'new', 'raise', 'await', 'double-complete'):
                    path.append('  %s %s' % (site(e), ('%s %s %s' % (
                        e.kind, e.target, e.data if e.kind == 'raise' else ''))[:140]))
                    place = '%s (in %s)' % (site(e), e.func)
        facts = []
        if st is not None:
            from .values import term_str
            facts = ['%s = %s' % (term_str(k), v) for k, v in list(st.facts.items())[-25:]]
        self.res.findings.append(Finding(name, text, kind, self.rule + ' -- ' + detail, place,
                                         cases + path[-60:], facts))

    def diverged(self):
        for st, n, fr in self.I.diverged:
            if fr.mod.name.startswith('drv.'):
                continue
            self.finding(st, 'the protocol ends', 'divergence', 'the loop at %s:%d (in %s) goes on for ever: '
                         'its state repeats' % (fr.mod.path, n.lineno, fr.qual))

    def escaped(self, st, r):
        en = self.I.exc_name(st, r.exc)
        last = None
        for e in st.events():
            if e.kind == 'raise':
                last = e
        msg = ''
        h = st.heap.get(getattr(r.exc, 'oid', None))
        if h is not None and 'args' in h.attrs:
            msg = repr(h.attrs['args'])[:120]
        self.finding(st, 'no exception escapes the protocol', 'exception',
                     '%s%s escapes (raised at %s)' % (en, msg, site(last) if last else '?'))

    # -------------------------------------------------- intrinsics
    def i_check(self, I, n, st, fr):
        """check(cond, text)"""
        out = []
        if len(n.args) != 2:
            raise Unsupported('check takes two arguments')
        text = n.args[1].value if isinstance(n.args[1], ast.Constant) else None
        nf = len(st.facts)
        for s, v in I.ev_(n.args[0], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            if text is None:
                for s1, tv in I.ev_(n.args[1], s, fr):
                    t = tv.v if isinstance(tv, Const) else 'check at line %d' % n.lineno
                    out.extend(self.checked(I, n, s1, fr, v, t, nf))
                continue
            out.extend(self.checked(I, n, s, fr, v, text, nf))
        return out

    def checked(self, I, n, s, fr, v, text, nf):
        r = self.res
        s0 = s.copy()
        ts = I.truth(s0, v, fr, n)
        L = (n.lineno, text)
        r.texts[L] = text
        if len(ts) == 1 and ts[0][1] is True:
            r.held[L] = r.held.get(L, 0) + 1
        elif len(ts) == 1 and ts[0][1] is False and len(s.facts) == nf:
            r.failed[L] = r.failed.get(L, 0) + 1
            self.finding(s, text, 'violated', 'the condition is false on this path')
        elif self.refuted(s, s0, ts, v, nf):
            r.failed[L] = r.failed.get(L, 0) + 1
            self.finding(s, text, 'violated', 'the condition does not follow: it relates unknown inputs that are free')
        else:
            r.maybe[L] = r.maybe.get(L, 0) + 1
        return [(s, NONE)]

    def refuted(self, s, s0, ts, v, nf):
        """Is the condition false for some inputs?  It is where it comes down to an input being equal to something
        that does not depend on it, while nothing else is known about that input."""
        new = list(s.facts.items())[nf:]
        old = dict(list(s.facts.items())[:nf])
        if len(ts) == 1 and ts[0][1] is False:
            pass                        # false under the assumptions its evaluation made
        elif len(ts) == 2 and isinstance(v, Sym):
            key, want = v.key, False
            while key[0] in ('not', 'truthy'):
                want = want is not (key[0] == 'not')
                key = key[1]
            new.append((key, want))
        else:
            return False
        if not new:
            return False
        if all(self.open(k, x, old) for k, x in new):
            return True
        return counterexample(new, old, self.inputs, s0.heap) is not None

    def open(self, key, val, facts):
        """May the predicate be assumed to be false, whatever else holds?"""
        if val is not False or key[0] not in ('eq', 'is'):
            return False
        for a, b in ((key[1], key[2]), (key[2], key[1])):
            if self.free(a, facts) and (b[0] in ('c', 'r', 'cls', 'ext') or b in self.inputs and b != a):
                return True
        return False

    def free(self, a, facts):
        if a not in self.inputs or self.inputs[a] is not None and not self.inputs[a] - {
                'builtins.bool', 'builtins.NoneType'}:
            return False
        for k, x in facts.items():
            if not mentions(k, a) or k[0] == 'isinstance' and k[1] == a and x:
                continue
            if k == ('truthy', a) and x is True:
                continue
            if k[0] in ('eq', 'is') and x is False and a in k[1:]:
                continue
            return False
        return True

    def i_fail(self, I, a, k, st, fr, node):
        self.res.failed[(node.lineno, 'fail')] = 1
        self.finding(st, a[0].v, 'violated', 'this path must not exist')
        st.meta['pruned'] = True
        return []

    def i_cover(self, I, a, k, st, fr, node):
        """cover(text[, cond]): some partition must get here (with cond true)."""
        hit, maybe = self.res.covers.get(a[0].v, (0, 0))
        if len(a) > 1:
            ts = I.truth(st.copy(), a[1], fr, node)
            if len(ts) == 1 and ts[0][1] is True:
                hit += 1
            elif not (len(ts) == 1 and ts[0][1] is False):
                maybe += 1
        else:
            hit += 1
        self.res.covers[a[0].v] = (hit, maybe)
        return [(st, NONE)]

    def i_must_cover(self, I, a, k, st, fr, node):
        self.res.covers.setdefault(a[0].v, (0, 0))
        return [(st, NONE)]

    def i_assume(self, I, a, k, st, fr, node):
        return [(s, NONE) for s, b in I.truth(st, a[0], fr, node) if b is True]

    def i_unknown(self, I, a, k, st, fr, node):
        """unknown(name, *types): a value about which only its type is known."""
        types, cls = [], None
        for t in a[1:]:
            if isinstance(t, ClassV):
                types.append(t.ci.qual)
                cls = t.ci
            elif isinstance(t, ExtV):
                types.append(t.name)
            elif isinstance(t, Const) and t.v is None:
                types.append('builtins.NoneType')
        v = Sym(('s', a[0].v), types=frozenset(types) if types else None,
                cls=cls if len(types) == 1 else None,
                nonnull=bool(types) and 'builtins.NoneType' not in types)
        if 'builtins.NoneType' in types:
            v.nonnull = False
        self.inputs[v.key] = v.types
        return [(st, v)]

    def i_thing(self, I, a, k, st, fr, node):
        """An object nothing is known about, except that it is not None."""
        self.inputs[('s', a[0].v)] = None
        return [(st, Sym(('s', a[0].v), nonnull=True))]

    def i_exposed(self, I, a, k, st, fr, node):
        """exposed(package...): (kind, name, object) of every @expose_* in the packages."""
        pk = [x.v for x in a]
        todo = []
        for mn in sorted(self.model.modules):
            mod = self.model.modules[mn]
            if mn.split('.')[0] not in pk:
                continue
            for s in mod.tree.body:
                for d in getattr(s, 'decorator_list', ()):
                    if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in (
                            'expose_action', 'expose_substitution') and d.args and \
                            isinstance(d.args[0], ast.Constant):
                        todo.append((ast.unparse(d.func).split('.')[-1][7:], d.args[0].value, mod,
                                     s.name))
        outs = [(st, [])]
        for kind, name, mod, obj in todo:
            nxt = []
            for s, l in outs:
                for s2, v in I.load_attr(s, ModV(mod), obj, fr, node):
                    nxt.append((s2, l + [TupleV([Const(kind), Const(name), v])]))
            outs = nxt
        return [(s, TupleV(l)) for s, l in outs]

    def i_source(self, I, a, k, st, fr, node):
        """source(path): the text of a file of the repository."""
        p = a[0].v
        p = p if os.path.isabs(p) else os.path.join(self.model.repo, p)
        if not os.path.realpath(p).startswith(os.path.realpath(self.model.repo) + os.sep) or \
                not os.path.isfile(p):
            return [(st, I.raise_(st, 'builtins.FileNotFoundError', node, fr, p))]
        return [(st, Const(open(p).read()))]

    def i_grammar_tree(self, I, a, k, st, fr, node):
        """grammar_tree(grammar, start, text): ('token', type, value) | ('node', rule, (...))."""
        Lark, err = ext.lark()
        key = (a[0].v, a[1].v)
        if key not in ext.LARKS:
            ext.LARKS[key] = Lark(a[0].v, start=a[1].v)
        try:
            t = ext.LARKS[key].parse(a[2].v)
        except err as e:
            return [(st, I.raise_(st, 'lark.exceptions.' + type(e).__name__, node, fr, 'syntax'))]

        def conv(t):
            if hasattr(t, 'children'):
                return TupleV([Const('node'), Const(str(t.data)), TupleV([conv(c) for c in t.children])])
            return st.alloc(HObj('lark.Token', {'type': Const(str(t.type)), 'value': Const(str(t))}), 't')
        return [(st, conv(t))]

    def i_pick(self, I, a, k, st, fr, node):
        out = []
        for i, v in enumerate(a):
            s = st.copy() if i < len(a) - 1 else st
            if len(a) > 1:
                I.ev('pick', 'pick', s, node, fr, args=(v,))
            out.append((s, v))
        return out

    def i_deep(self, I, a, k, st, fr, node):
        return [(st, boolc(self.tier == 'thorough'))]

    def i_log(self, I, a, k, st, fr, node):
        I.ev('log', a[0].v, st, node, fr, args=tuple(a[1:]), kwargs=k)
        return [(st, NONE)]

    def i_logs(self, I, a, k, st, fr, node):
        I.trace_reads += 1
        tags = {x.v for x in a}
        return [(st, st.alloc(HList([TupleV([Const(e.target)] + list(e.args)) for e in st.events()
                                     if e.kind == 'log' and (not tags or e.target in tags)]), 'l'))]

    def event_obj(self, st, i, e):
        kw = st.alloc(HDict([(Const(x), y) for x, y in e.kwargs.items() if isinstance(x, str)]))
        return st.alloc(HObj('sa_env.Event', {
            'name': Const(e.target), 'args': TupleV([x for x in e.args]), 'kwargs': kw,
            'recv': e.recv if e.recv is not None else NONE, 'data': e.data if isinstance(
                e.data, (Const, Sym, Ref)) else Const(str(e.data)),
            'result': e.result if e.result is not None else NONE, 'index': Const(i),
            'locked': boolc(bool(e.locks)), 'nlocks': Const(len(e.locks)),
            'locks': TupleV([x for x in e.locks if hasattr(x, 'key')]),
            'func': Const(e.func), 'kind': Const(e.kind)}))

    def i_events(self, I, a, k, st, fr, node):
        """events(name...): the events of that name outside driver code, in order."""
        I.trace_reads += 1
        names = [x.v for x in a]
        es = [(i, e) for i, e in enumerate(st.events()) if e.kind in (
            'call', 'new', 'raise', 'double-complete', 'setattr', 'log', 'await') and e.target in names]
        return [(st, st.alloc(HList([self.event_obj(st, i, e) for i, e in es]), 'l'))]

    def i_effects(self, I, a, k, st, fr, node):
        """Every event of some kind: effects(kind...)"""
        I.trace_reads += 1
        kinds = [x.v for x in a]
        es = [(i, e) for i, e in enumerate(st.events()) if e.kind in kinds]
        return [(st, st.alloc(HList([self.event_obj(st, i, e) for i, e in es]), 'l'))]

    def i_stub(self, I, a, k, st, fr, node):
        """stub(target, fn): calls of target are replaced by the driver function fn."""
        fn = a[1]

        def h(I, s, c, fn=fn):
            args = list(c.args)
            if c.target.startswith('.') and c.recv is not None and c.name and \
                    not isinstance(c.fn, FuncV):
                args = [c.recv] + args
            kw = c.kwargs
            if isinstance(fn, Const):
                return [(s, fn)]
            outs = I.call(fn, args, kw, s, c.fr, c.node)
            res = []
            for s2, v in outs:
                if isinstance(v, ExtV) and v.name == 'sa_env.DEFAULT':
                    if len(outs) == 1 and s2 is s:
                        return None
                    if c.cont is not None:
                        res.extend(c.cont(s2))
                        continue
                    raise Unsupported('DEFAULT in a forking stub')
                res.append((s2, v))
            return res
        st.meta[('stub', a[0].v)] = h
        return [(st, NONE)]

    def i_unstub(self, I, a, k, st, fr, node):
        st.meta.pop(('stub', a[0].v), None)
        return [(st, NONE)]

    def i_opaque(self, I, a, k, st, fr, node):
        for x in a:
            I.opaque.add(x.v)
        return [(st, NONE)]

    def i_inject(self, I, a, k, st, fr, node):
        """inject(target, exception...): those calls may also raise."""
        tgt, ens = a[0].v, [x.v if isinstance(x, Const) else x.name if isinstance(
            x, ExtV) else x.ci.qual for x in a[1:]]
        I.raises.append(lambda c: ens if c.target == tgt else ())
        return [(st, NONE)]

    def i_inject_await(self, I, a, k, st, fr, node):
        ens = [x.v if isinstance(x, Const) else x.name for x in a]
        I.await_raises = lambda c: ens
        return [(st, NONE)]

    def i_run(self, I, a, k, st, fr, node):
        """run(coroutine or task): drive it to completion."""
        v = a[0]
        task = None
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj) and 'coro' in st.heap[v.oid].attrs:
            task = v
            v = st.heap[v.oid].attrs['coro']
        if not isinstance(v, CoroV):
            if isinstance(v, Sym):
                raise Unsupported('run of %r' % (v,))
            return [(st, I.raise_(st, 'builtins.TypeError', node, fr, 'not a coroutine: %r' % (v,)))]
        out = []
        for s, r in I.run_coro(st, v, fr, node):
            if task is not None:
                if isinstance(r, Raise):
                    cancelled = I.exc_match(s, r.exc, ExtV('asyncio.CancelledError'))
                    yes = all(b for _, b in cancelled) if isinstance(cancelled, list) else bool(cancelled)
                    ext.fut_set(s, task, 'cancelled' if yes else 'done', exc=r.exc)
                else:
                    ext.fut_set(s, task, 'done', result=r)
            out.append((s, r))
        return out

    def i_fire(self, I, a, k, st, fr, node):
        """fire(future): the loop runs its done callbacks."""
        h = st.heap[a[0].oid]
        outs = [(st, NONE)]
        for cb in h.attrs.get('cbs', TupleV([])).items:
            nxt = []
            for s, v in outs:
                nxt.extend([(s, v)] if isinstance(v, Raise) else I.call(cb, [a[0]], {}, s, fr, node))
            outs = nxt
        return outs

    def i_coros(self, I, a, k, st, fr, node):
        """Tasks and thread-safe submissions made so far."""
        I.trace_reads += 1
        out = []
        for e in st.events():
            if e.kind == 'call' and e.target in (
                    '.create_task', '.ensure_future', 'asyncio.ensure_future', 'asyncio.create_task',
                    'asyncio.run_coroutine_threadsafe') and isinstance(e.result, Ref):
                h = st.heap.get(e.result.oid)
                if isinstance(h, HObj) and isinstance(h.attrs.get('coro'), CoroV):
                    out.append(e.result)
        return [(st, TupleV(out))]

    def i_new_future(self, I, a, k, st, fr, node):
        r = ext.new_future(I, st)
        if a:
            ext.fut_set(st, r, a[0].v)
        return [(st, r)]

    def i_pin(self, I, a, k, st, fr, node):
        """The future is completed by nobody but the analysed code and the driver."""
        h = st.heap[a[0].oid].copy()
        h.attrs['pinned'] = TRUE
        st.heap[a[0].oid] = h
        return [(st, a[0])]

    def i_set_state(self, I, a, k, st, fr, node):
        kw = {}
        state = a[1].v
        if len(a) > 2:
            kw['exc' if state == 'exception' else 'result'] = a[2]
        ext.fut_set(st, a[0], 'done' if state == 'exception' else state, **kw)
        return [(st, NONE)]

    def i_state_of(self, I, a, k, st, fr, node):
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj) and 'fstate' in st.heap[v.oid].attrs:
            return [(st, st.heap[v.oid].attrs['fstate'])]
        if isinstance(v, Sym):
            return [(st, Sym(('fstate', v.key)))]
        return [(st, Const('not a future'))]

    def i_drive(self, I, a, k, st, fr, node):
        """drive(generator, fn): run it to its end; every yield gives what fn(value) gives or raises."""
        return I.drive(st, a[0], a[1], fr, node)

    def i_coro_of(self, I, a, k, st, fr, node):
        v = a[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj):
            return [(st, st.heap[v.oid].attrs.get('coro', NONE))]
        return [(st, NONE)]

    def i_kind(self, I, a, k, st, fr, node):
        """Class name of a value, '?' if unknown."""
        v = a[0]
        if isinstance(v, CoroV):
            return [(st, Const('coroutine'))]
        t = I.type_of(st, v)
        if isinstance(t, ClassV):
            return [(st, Const(t.ci.name))]
        if isinstance(t, ExtV):
            return [(st, Const(t.name.split('.')[-1]))]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HIter):
            return [(st, Const('iterator'))]
        return [(st, Sym(('kind', v.key)))]

    def i_known(self, I, a, k, st, fr, node):
        """Is this a definite value (not an unknown term)?"""
        return [(st, boolc(not isinstance(a[0], Sym)))]

    def i_is_seg(self, I, a, k, st, fr, node):
        return [(st, boolc(isinstance(a[0], Seg)))]

    def i_held_locks(self, I, a, k, st, fr, node):
        return [(st, Const(len(st.locks)))]

    def i_private(self, I, a, k, st, fr, node):
        raise Unsupported('private')

    def i_has(self, I, a, k, st, fr, node):
        """Does the analysed code define this dotted name?"""
        return [(st, boolc(self.model.find(a[0].v) is not None))]

    def i_environ(self, I, a, k, st, fr, node):
        """Replace os.environ by exactly these entries."""
        ents = [(Const(n), v) for n, v in k.items()]
        if a:
            h = st.heap[a[0].oid]
            ents = list(h.entries)
        st.heap['os.environ'] = HDict(tuple(ents), None, None, 'environ')
        return [(st, NONE)]

    def i_mark(self, I, a, k, st, fr, node):
        I.trace_reads += 1
        return [(st, Const(st.tlen))]

    def i_show(self, I, a, k, st, fr, node):
        if os.environ.get('SA_SHOW'):
            def d(v):
                if isinstance(v, Ref):
                    h = st.heap[v.oid]
                    if isinstance(h, HObj):
                        return '%s%r{%s}' % (v, h.cname, ', '.join(
                            '%s=%r' % kv for kv in h.attrs.items()))
                    if isinstance(h, HList):
                        return '%r%s' % (v, h.kind) + repr(h.items)
                    if isinstance(h, HDict):
                        return '%r{%s}+%s' % (v, h.entries, h.base)
                return repr(v)
            print('SHOW', node.lineno, [d(x)[:400] for x in a])
        return [(st, NONE)]

    def i_show_trace(self, I, a, k, st, fr, node):
        if os.environ.get('SA_SHOW'):
            for e in st.events()[-(a[0].v if a else 60):]:
                print('   T', repr(e)[:200])
        return [(st, NONE)]

    i_DEFAULT = None


def drivers_of(model, pid):
    """Module and driver functions of a property."""
    name = pid.lower()
    path = os.path.join(DRIVERS, name + '.py')
    for f in sorted(os.listdir(DRIVERS)):
        if f.endswith('.py') and not (f[0] == 'c' and f[1:3].isdigit()) and \
                'drv.' + f[:-3] not in model.modules:
            model.add_module('drv.' + f[:-3], os.path.join(DRIVERS, f))
    mod = model.modules.get('drv.' + name) or model.add_module('drv.' + name, path)
    # every public name the driver imports from the analysed packages must exist
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.ImportFrom) and s.module and s.module.split('.')[0] in (
                'launch', 'launch_xml', 'launch_yaml', 'launch_testing', 'launch_pytest'):
            for al in s.names:
                if model.find(s.module + '.' + al.name) is None:
                    raise MissingAnchor('%s.%s' % (s.module, al.name))
    opts = {}
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id == 'OPTIONS':
            opts = ast.literal_eval(s.value)
    # modules outside the repository that are read from drivers/std
    for name in opts.get('*', {}).get('modules', ()):
        if name not in model.modules:
            mi = model.add_module(name, os.path.join(DRIVERS, 'std', name + '.py'))
            for sub in opts['*']['modules'][name]:
                model.modules[sub[1:] if sub[0] == '=' else name + '.' + sub] = mi
    fns = [s for s in mod.tree.body if isinstance(s, ast.FunctionDef) and s.name.startswith('d_')]
    return mod, fns, opts


def run_drivers(model, pid, known_ext, tier='quick', only=None):
    mod, fns, opts = drivers_of(model, pid)
    out = []
    for f in fns:
        if only and f.name not in only:
            continue
        o = dict(opts.get('*', {}))
        o.update(opts.get(f.name, {}))
        out.append(Runner(model, mod, f, known_ext, o, tier).go())
    return out
