"""Models of builtins and of the external library calls the repository uses."""
import ast
import builtins
import functools
import math
import re
import signal
import os as _os
import posixpath

from .model import ClassInfo, EXT_BASES, norm_ext
from .values import (BREAK, NORMAL, BoundV, boolc, BuiltinM, ClassV, Const, CoroV, CtxV, DELETED, Ev, ExtV, FALSE,
                     FuncV, HDict, HEnv, HIter, HList, HObj, ModV, NONE, PartialV, Raise, Ref, Seg,
                     StarA, SuperV, Sym, TRUE, TupleV, V)

STR = frozenset(['builtins.str'])
INT = frozenset(['builtins.int'])

CONSTS = {
    **{'inspect.Parameter.' + a: Const(i) for i, a in enumerate((
        'POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD'))},
    'sys.executable': Const('/usr/bin/python3'),
    'os.name': Const('posix'), 'sys.platform': Const('linux'), 'os.sep': Const('/'),
    'logging.NOTSET': Const(0), 'logging.DEBUG': Const(10), 'logging.INFO': Const(20),
    'logging.WARNING': Const(30), 'logging.ERROR': Const(40), 'logging.CRITICAL': Const(50),
    'os.pathsep': Const(':'), 'os.linesep': Const('\n'), 'os.curdir': Const('.'),
    'typing.TYPE_CHECKING': FALSE, 'builtins.__debug__': TRUE,
    'signal.SIGINT': Const(2), 'signal.SIGTERM': Const(15), 'signal.SIGKILL': Const(9),
    'signal.SIGQUIT': Const(3),
    **{'math.' + k: Const(getattr(math, k)) for k in ('pi', 'e', 'tau', 'inf', 'nan')},
    'sys.maxsize': Const(2 ** 63 - 1),
    'builtins.True': TRUE, 'builtins.False': FALSE, 'builtins.None': NONE,
}
del CONSTS['signal.SIGINT'], CONSTS['signal.SIGTERM'], CONSTS['signal.SIGKILL'], CONSTS['signal.SIGQUIT']

# externals that are heap objects known under a fixed identity
STATIC_REFS = {'os.environ': 'os.environ'}
SUBSCRIPT_EVENTS = set()

PURE_EXT = {
    'os.path.join', 'os.path.abspath', 'os.path.dirname', 'os.path.basename', 'os.path.splitext',
    'os.path.realpath', 'os.path.expanduser', 'os.path.normpath', 'os.path.isabs', 'os.fspath',
    'os.fsdecode',
    'math.isclose', 'shlex.split', 'platform.system', 'os.path.relpath', 'textwrap.indent',
    'os.path.split', 'shlex.quote', 'builtins.ord', 'builtins.chr', 'builtins.divmod',
    'math.floor', 'math.ceil', 'math.isnan', 'math.isinf', 'math.isfinite', 'os.getcwd',
    'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.islink', 'os.path.lexists',
    'inspect.isclass', 'inspect.isfunction',
    'inspect.isgeneratorfunction', 'inspect.isasyncgenfunction', 'inspect.signature',
    'html.escape', 'xml.sax.saxutils.escape', 'inspect.getmodule',
}

EXC_LIKE = ('Error', 'Exception', 'Warning', 'Exit', 'Interrupt', 'StopIteration')


def is_exc_name(n):
    b = n.split('.')[-1]
    o = getattr(builtins, b, None) if n.startswith('builtins.') else None
    if isinstance(o, type) and issubclass(o, BaseException):
        return True
    return not n.startswith('builtins.') and b.endswith(EXC_LIKE)


def init_state(st):
    st.heap['os.environ'] = HDict((), ('environ0',), None, 'environ')


# ------------------------------------------------------------------ awaits
FUTURES = ('asyncio.Future', 'asyncio.Task', 'concurrent.futures.Future')


def on_await(I, st, v):
    """Other tasks may run here: pending futures may have completed."""
    for oid, h in list(st.heap.items()):
        if isinstance(h, HObj) and h.cls in FUTURES and h.attrs.get('fstate') is not None and \
                h.attrs['fstate'].v == 'pending' and 'pinned' not in h.attrs:
            h = h.copy()
            h.attrs['fstate'] = Const('unknown')
            st.heap[oid] = h


def await_result(I, st, v, fr, node):
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj) and st.heap[v.oid].cls in FUTURES:
        h = st.heap[v.oid].copy()
        if h.attrs.get('fstate') is not None and h.attrs['fstate'].v == 'cancelled':
            return [(st, I.raise_(st, 'asyncio.CancelledError', node, fr))]
        h.attrs['fstate'] = Const('done')
        st.heap[v.oid] = h
        if 'exc' in h.attrs:
            return [(st, Raise(h.attrs['exc'], node))]
        return [(st, h.attrs.get('result', Sym(('result', v.key))))]
    if isinstance(v, Sym) and v.origin is not None and v.origin.target in ('asyncio.sleep',):
        return [(st, NONE)]
    st.n += 1
    return [(st, Sym(('awaited', v.key, st.n), origin=getattr(v, 'origin', None)))]


def new_future(I, st, cls='asyncio.Future', **attrs):
    a = {'fstate': Const('pending')}
    a.update(attrs)
    return st.alloc(HObj(cls, a), 'fut')


def fut_set(st, ref, state, **kw):
    h = st.heap[ref.oid].copy()
    h.attrs['fstate'] = Const(state)
    h.attrs.update(kw)
    st.heap[ref.oid] = h


def method_model(I, c, st):
    """Models of methods on unknown/external receivers; None = plain opaque event."""
    recv, name = c.recv, c.name
    fr, node = c.fr, c.node
    if isinstance(recv, Ref) and isinstance(st.heap.get(recv.oid), HObj):
        h = st.heap[recv.oid]
        if h.cls in FUTURES:
            return future_method(I, c, st, recv, h, name)
        if h.cls == 'collections.Counter':
            return None
    if name in ('create_future',):
        e = I.ev('call', '.' + name, st, node, fr, recv=recv, name=name, args=tuple(c.args), kwargs=dict(c.kwargs or {}))
        r = I.run_hook(c, st)
        if r is not None:
            return r
        e.result = new_future(I, st)
        return [(st, e.result)]
    if name in ('create_task', 'ensure_future') and recv is not None:
        e = I.ev('call', '.' + name, st, node, fr, recv=recv, name=name, args=tuple(c.args), kwargs=dict(c.kwargs or {}))
        r = I.run_hook(c, st)
        if r is not None:
            return r
        e.result = new_future(I, st, 'asyncio.Task', coro=c.args[0] if c.args else NONE)
        return [(st, e.result)]
    if isinstance(recv, V) and name == 'get' and isinstance(recv, Sym) and False:
        return None
    return None


def future_method(I, c, st, recv, h, name):
    fr, node = c.fr, c.node
    fs = h.attrs.get('fstate', Const('unknown')).v
    e = I.ev('call', '.' + name, st, node, fr, recv=recv, name=name, args=tuple(c.args), kwargs=dict(c.kwargs or {}), data=fs)
    r = I.run_hook(c, st)
    if r is not None:
        return r
    if h.cls == 'concurrent.futures.Future' and name in ('result', 'exception') and \
            fs in ('pending', 'unknown') and isinstance(h.attrs.get('coro'), CoroV) and \
            'ran' not in h.attrs:
        # blocks until the loop has run the coroutine
        fut_set(st, recv, fs, ran=TRUE)
        out = []
        for s, r in I.run_coro(st, h.attrs['coro'], fr, node):
            fut_set(s, recv, 'done', **({'exc': r.exc} if isinstance(r, Raise) else {'result': r}))
            if name == 'result':
                out.append((s, r))
            else:
                out.append((s, r.exc if isinstance(r, Raise) else NONE))
        return out
    if name == 'done':
        if fs == 'done' or fs == 'cancelled':
            return [(st, TRUE)]
        if fs == 'pending':
            return [(st, FALSE)]
        s2 = st.copy()
        fut_set(st, recv, 'done')
        fut_set(s2, recv, 'pending')
        return [(st, TRUE), (s2, FALSE)]
    if name in ('set_result', 'set_exception'):
        out = []
        outs = [(st, fs)]
        if fs == 'unknown':
            s2 = st.copy()
            outs = [(st, 'pending'), (s2, 'done')]
        for s, f in outs:
            if f == 'pending':
                v = c.args[0] if c.args else NONE
                fut_set(s, recv, 'done', **({'result': v} if name == 'set_result' else {'exc': v}))
                out.append((s, NONE))
            else:
                e2 = I.ev('double-complete', '.' + name, s, node, fr, recv=recv)
                out.append((s, I.raise_(s, 'asyncio.InvalidStateError', node, fr, 'invalid state')))
        return out
    if name == 'cancel':
        if fs in ('pending', 'unknown'):
            if h.cls == 'asyncio.Task':
                fut_set(st, recv, 'unknown')
            else:
                fut_set(st, recv, 'cancelled')
            return [(st, TRUE)]
        return [(st, FALSE)]
    if name in ('cancelled',) or name in ('exception', 'result') and fs in ('done', 'cancelled', 'pending'):
        if name != 'cancelled' and fs == 'pending':
            return [(st, I.raise_(st, 'asyncio.InvalidStateError', node, fr))]
        if fs == 'cancelled':
            return [(st, TRUE if name == 'cancelled' else I.raise_(
                st, 'asyncio.CancelledError', node, fr))]
        if fs == 'pending' or 'result' in h.attrs or 'exc' in h.attrs:
            if name == 'cancelled':
                return [(st, FALSE)]
            if name == 'exception':
                return [(st, h.attrs.get('exc', NONE))]
            if 'exc' in h.attrs:
                return [(st, Raise(h.attrs['exc'], node))]
            return [(st, h.attrs['result'])]
        if name == 'cancelled':
            k = ('cancelled', recv.key)
            return [(s, boolc(b)) for s, b in I.branch(st, k)]
    if name == 'exception':
        out = []
        for s, b in I.branch(st, ('cancelled', recv.key)):
            if b:
                out.append((s, I.raise_(s, 'asyncio.CancelledError', node, fr)))
            else:
                for s2, none in I.branch(s, ('is', ('exception', recv.key), NONE.key)):
                    out.append((s2, NONE if none else Sym(('exception', recv.key), nonnull=True)))
        return out
    if name == 'add_done_callback':
        cbs = h.attrs.get('cbs', TupleV([]))
        h = h.copy()
        h.attrs['cbs'] = TupleV(list(cbs.items) + [c.args[0]])
        st.heap[recv.oid] = h
        return [(st, NONE)]
    if name == 'remove_done_callback':
        cbs = h.attrs.get('cbs', TupleV([]))
        h = h.copy()
        h.attrs['cbs'] = TupleV([x for x in cbs.items if x.key != c.args[0].key])
        st.heap[recv.oid] = h
        return [(st, Const(len(cbs.items) - len(h.attrs['cbs'].items)))]
    if name == 'result':
        return [(st, h.attrs.get('result', Sym(('result', recv.key))))]
    st.n += 1
    v = Sym(('call', 'fut.' + name, st.n), origin=e)
    return [(st, v)]


# ------------------------------------------------------------------ external functions
UNBOUND = re.compile(r'builtins\.(str|bytes|int|float)\.([a-z]\w*)$')


def call_ext(I, name, args, kwargs, st, fr, node):
    name = norm_ext(name)
    if name.startswith('sa_env.'):
        return I.intrinsics[name[7:]](I, args, kwargs, st, fr, node)
    fn = BUILTINS.get(name)
    if fn is not None:
        h = I.hook_of(st, name)
        if h is not None:
            from .interp import Call
            r = h(I, st, Call(name, ExtV(name), None, None, args, kwargs, node, fr))
            if r is not None:
                return r
        r = fn(I, args, kwargs, st, fr, node)
        if r is not None:
            return r
    m = UNBOUND.match(name)
    if m is not None and args and I.hook_of(st, name) is None and \
            isinstance(args[0], Const) and type(args[0].v).__name__ == m.group(1):
        # str.encode(s) is s.encode()
        return I.call_method(st, args[0], m.group(2), args[1:], kwargs, fr, node)
    if (name in LIBFOLD or name.startswith('math.')) and I.hook_of(st, name) is None:
        r = fold_lib(I, name, args, kwargs, st, fr, node)
        if r is None and name == 're.sub' and len(args) == 3:
            r = sub_with(I, args, kwargs, st, fr, node)
        if r is not None:
            return r
    return opaque_ext(I, name, args, kwargs, st, fr, node)


def opaque_ext(I, name, args, kwargs, st, fr, node):
    from .interp import Call
    c = Call(name, ExtV(name), None, None, args, kwargs, node, fr)
    I.callsites.add((fr.mod.path if fr and fr.mod else '', getattr(node, 'lineno', 0), name))
    e = I.ev('call', name, st, node, fr, args=tuple(args), kwargs=kwargs)
    default = None
    last = name.split('.')[-1]
    if is_exc_name(name):
        default = st.alloc(HObj(name, {'args': TupleV([a for a in args if isinstance(a, V)])}), 'x')
    elif name in PURE_EXT:
        k = ('pure', name) + tuple(a.key for a in args) + tuple(
            (('kw', kk) + (vv.key,)) for kk, vv in sorted(kwargs.items(), key=lambda x: str(x[0]))
            if isinstance(vv, V))
        if name in FOLD and all(isinstance(a, Const) for a in args) and not kwargs:
            try:
                default = from_py(st, FOLD[name](*[a.v for a in args]))
            except Exception:
                default = Sym(k, origin=e)
        else:
            default = Sym(k, types=STR if name in STR_EXT else None, origin=e)
    elif last[:1].isupper() and not name.startswith('builtins.'):
        # construction of an external object
        default = st.alloc(HObj(name, {'args': TupleV([a for a in args if isinstance(a, V)]),
                                       'kwargs': TupleV([TupleV([Const(k), v]) for k, v in
                                                         kwargs.items() if isinstance(v, V)])}), 'x')
    return I.opaque_result(c, e, st, fr, node, default)


STR_EXT = {'os.path.join', 'os.path.abspath', 'os.path.dirname', 'os.path.basename',
           'os.path.realpath', 'os.path.expanduser', 'os.path.normpath', 'platform.system',
           'os.getcwd', 'os.fsdecode'}
FOLD = {'os.fsdecode': lambda x: x.decode() if isinstance(x, bytes) else x, 'os.fspath': lambda x: x,
        'os.path.join': posixpath.join, 'os.path.dirname': posixpath.dirname,
        'os.path.basename': posixpath.basename, 'os.path.splitext': posixpath.splitext,
        'os.path.isabs': posixpath.isabs, 'os.path.normpath': posixpath.normpath,
        'os.path.split': posixpath.split, 'platform.system': lambda: 'Linux'}


class NotPy(Exception):
    pass


def to_py(st, v, depth=0):
    """The Python value of a fully known abstract value, or NotPy."""
    if depth > 12:
        raise NotPy()
    if isinstance(v, Const):
        return v.v
    if isinstance(v, TupleV):
        return tuple(to_py(st, x, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        h = st.heap[v.oid]
        if isinstance(h, HList) and h.kind in ('list', 'set', 'frozenset'):
            l = [to_py(st, x, depth + 1) for x in h.items]
            try:
                return l if h.kind == 'list' else set(l) if h.kind == 'set' else frozenset(l)
            except TypeError:
                raise NotPy()
        if isinstance(h, HDict) and h.base is None and h.factory is None:
            try:
                return {to_py(st, k, depth + 1): to_py(st, x, depth + 1)
                        for k, x in h.entries if x is not DELETED}
            except TypeError:
                raise NotPy()
    raise NotPy()


def from_py(st, x):
    if isinstance(x, tuple):
        return TupleV([from_py(st, i) for i in x])
    if isinstance(x, list):
        return st.alloc(HList([from_py(st, i) for i in x]))
    if isinstance(x, (set, frozenset)):
        return st.alloc(HList([from_py(st, i) for i in sorted(x, key=str)],
                              'set' if isinstance(x, set) else 'frozenset'))
    if isinstance(x, dict):
        return st.alloc(HDict([(from_py(st, k), from_py(st, v)) for k, v in x.items()]))
    return Const(x)


def lib(name):
    """The function of a trusted pure library, for folding known arguments."""
    import importlib
    mod, _, fn = name.rpartition('.')
    try:
        return getattr(importlib.import_module(mod), fn)
    except Exception:
        return None


def b_import_module(I, args, kwargs, st, fr, node):
    import sys
    if len(args) == 1 and isinstance(args[0], Const) and args[0].v in sys.stdlib_module_names:
        return [(st, ExtV(args[0].v))]
    if len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, str):
        name = args[0].v
        if name == '':
            return [(st, I.raise_(st, 'builtins.ValueError', node, fr, 'Empty module name'))]
        if not name.startswith('.') and not all(p.isidentifier() for p in name.split('.')):
            return [(st, I.raise_(st, 'builtins.ModuleNotFoundError', node, fr, 'No module named %r' % name))]
    return None


LARKS = {}


def lark():
    """The parser generator, used to build the tables of the grammar in the repository."""
    import sys
    for d in ('/opt/venv/lib/python3.12/site-packages',
              '/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
        if d not in sys.path:
            sys.path.append(d)
    import lark as m
    return m.Lark, m.exceptions.LarkError


def b_dir(I, args, kwargs, st, fr, node):
    if len(args) == 1 and isinstance(args[0], ClassV):
        names = set(dir(object))
        for c in args[0].ci.mro:
            if isinstance(c, ClassInfo):
                names.update(c.members)
                e = st.heap.get('ca:' + c.qual)
                names.update(e.vars if e is not None else ())
        return [(st, st.alloc(HList([Const(n) for n in sorted(names)])))]
    if len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], HObj) and \
            isinstance(st.heap[args[0].oid].cls, ClassInfo):
        (s, r), = b_dir(I, [ClassV(st.heap[args[0].oid].cls)], {}, st, fr, node)
        names = {x.v for x in s.heap[r.oid].items} | set(s.heap[args[0].oid].attrs)
        return [(s, s.alloc(HList([Const(n) for n in sorted(names)])))]
    return None


def b_isfunction(I, args, kwargs, st, fr, node):
    if isinstance(args[0], (FuncV, BoundV, ClassV, Const, Ref, TupleV, ExtV)):
        return [(st, boolc(isinstance(args[0], FuncV)))]
    return None


def b_isgeneratorfunction(is_async, I, args, kwargs, st, fr, node):
    f = args[0]
    while isinstance(f, (BoundV, PartialV)):
        f = f.fn
    if isinstance(f, FuncV):
        fi = I.model.finfo(f.node)
        return [(st, boolc(fi.is_gen and fi.is_async is is_async))]
    if isinstance(f, (ClassV, Const, Ref, TupleV, ExtV)):
        return [(st, boolc(False))]
    return None


def b_iscoroutinefunction(I, args, kwargs, st, fr, node):
    f = args[0]
    if isinstance(f, BoundV):
        f = f.fn
    if isinstance(f, FuncV):
        return [(st, boolc(I.model.finfo(f.node).is_async and not I.model.finfo(f.node).is_gen))]
    if isinstance(f, (ClassV, Const, Ref, TupleV, ExtV)):
        return [(st, boolc(False))]
    return None


def b_ismethod(I, args, kwargs, st, fr, node):
    if isinstance(args[0], (FuncV, BoundV, ClassV, Const, Ref, TupleV, ExtV)):
        return [(st, boolc(isinstance(args[0], BoundV)))]
    return None


EVAL_FNS = {'float': float, 'int': int, 'abs': abs, 'bool': bool, 'str': str, 'round': round,
            'min': min, 'max': max, 'len': len}


class NotFolded(Exception):
    pass


def arith(n, names):
    """The value of an expression of constants (the only ones that are folded)."""
    import ast
    import operator as op
    if isinstance(n, ast.Expression):
        return arith(n.body, names)
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp):
        v = arith(n.operand, names)
        return {ast.USub: op.neg, ast.UAdd: op.pos, ast.Not: op.not_,
                ast.Invert: op.invert}[type(n.op)](v)
    if isinstance(n, ast.BinOp):
        fns = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Div: op.truediv,
               ast.FloorDiv: op.floordiv, ast.Mod: op.mod}
        if type(n.op) not in fns:
            raise NotFolded()
        return fns[type(n.op)](arith(n.left, names), arith(n.right, names))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        fns = {ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt, ast.LtE: op.le, ast.Gt: op.gt,
               ast.GtE: op.ge, ast.In: lambda a, b: a in b}
        if type(n.ops[0]) not in fns:
            raise NotFolded()
        return fns[type(n.ops[0])](arith(n.left, names), arith(n.comparators[0], names))
    if isinstance(n, ast.BoolOp):
        for x in n.values:
            v = arith(x, names)
            if bool(v) != isinstance(n.op, ast.And):
                return v
        return v
    if isinstance(n, ast.IfExp):
        return arith(n.body if arith(n.test, names) else n.orelse, names)
    if isinstance(n, (ast.List, ast.Tuple)):
        return [arith(x, names) for x in n.elts]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords and \
            n.func.id in EVAL_FNS and n.func.id not in names:
        return EVAL_FNS[n.func.id](*[arith(x, names) for x in n.args])
    if isinstance(n, ast.Name):
        import builtins
        if n.id not in names and not hasattr(builtins, n.id):
            raise NameError('name %r is not defined' % n.id)
    raise NotFolded()


def b_eval(I, args, kwargs, st, fr, node):
    if not args or not isinstance(args[0], Const) or not isinstance(args[0].v, str) or kwargs:
        return None
    import ast
    spaces = []
    for x in args[1:]:
        h = st.heap.get(x.oid) if isinstance(x, Ref) else None
        if not isinstance(h, HDict):
            return None
        # a base: the contents of a module which is not known
        spaces.append(({k.v: v for k, v in h.entries if isinstance(k, Const)},
                       h.base is not None or any(not isinstance(k, Const) for k, _ in h.entries)))
    try:
        e = ast.parse(args[0].v.strip(), mode='eval')
    except Exception as e:
        return [(st, I.raise_(st, 'builtins.%s' % type(e).__name__, node, fr, str(e)))]
    names = set().union(*[d for d, _ in spaces])
    try:
        return [(st, from_py(st, arith(e, names)))]
    except (NotFolded, NameError):
        pass
    except Exception as e:
        return [(st, I.raise_(st, 'builtins.%s' % type(e).__name__, node, fr, str(e)))]
    if not spaces:
        if any(isinstance(x, ast.Name) and not hasattr(builtins, x.id) for x in ast.walk(e)):
            return I.ev_(e.body, st, fr)    # in the scope of the caller
        return None
    used = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    if any(partial for _, partial in spaces) and not used <= names:
        return None
    if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)):
        return None
    g, l = spaces[0][0], spaces[-1][0]
    for x in inner_names(e.body):
        # functions and generators inside do not see the locals of the evaluation
        if x.id in l and x.id not in g:
            if hasattr(builtins, x.id):
                return None
            x.id += ' '
    for x in ast.walk(e):
        if hasattr(x, 'lineno'):
            x.lineno = x.end_lineno = getattr(node, 'lineno', 1)
    from .interp import Frame
    from .model import ModuleInfo
    outer = I.new_env(st, None, None, {k: v for k, v in g.items() if isinstance(k, str)})
    env = I.new_env(st, outer, None, {k: v for k, v in l.items() if isinstance(k, str)})
    mod = ModuleInfo('<eval>', fr.mod.path, ast.parse(''), False)
    return I.ev_(e.body, st, Frame('<eval>', mod, None, env, None, None, fr, node))


def inner_names(n, bound=(), inside=False):
    """The names read in functions and generators inside an expression, but for those bound there."""
    import ast
    if isinstance(n, ast.Lambda):
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            yield from inner_names(d, bound, inside)
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        yield from inner_names(n.body, set(bound) | ps, True)
    elif isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
        yield from inner_names(n.generators[0].iter, bound, inside)
        b = set(bound)
        for c in n.generators:
            b |= {x.id for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        deep = inside or isinstance(n, ast.GeneratorExp)
        for i, c in enumerate(n.generators):
            for x in ([c.iter] if i else []) + c.ifs:
                yield from inner_names(x, b, deep)
        for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
            yield from inner_names(x, b, deep)
    elif isinstance(n, ast.Name):
        if inside and n.id not in bound:
            yield n
    else:
        for x in ast.iter_child_nodes(n):
            yield from inner_names(x, bound, inside)


LOADERS = {'yaml.SafeLoader', 'yaml.BaseLoader', 'yaml.FullLoader', 'yaml.CSafeLoader'}
LIBFOLD = {'yaml.safe_load', 'yaml.load', 'yaml.full_load', 're.compile', 're.match', 're.search', 're.fullmatch', 're.sub',
           're.split', 're.escape', 're.findall', 're.finditer', 'textwrap.dedent', 'textwrap.indent', 'json.loads', 'json.dumps', 'shlex.split', 'shlex.quote',
           'shlex.join', 'fnmatch.fnmatch', 'math.isclose', 'math.isnan', 'math.isinf',
           'signal.strsignal', 'string.capwords'}


def fold_lib(I, name, args, kwargs, st, fr, node):
    """-> outcomes or None"""
    def py(x):
        if name == 'yaml.load' and isinstance(x, ExtV) and x.name in LOADERS:
            return lib(x.name)
        return to_py(st, x)
    try:
        a = [py(x) for x in args]
        k = {n: py(x) for n, x in kwargs.items()}
    except (NotPy, AttributeError):
        return None
    fn = lib(name)
    if fn is None or None in kwargs:
        return None
    try:
        r = fn(*a, **k)
        if name == 're.finditer':
            return [(st, st.alloc(HIter([Const(m) for m in r])))]
    except Exception as e:
        c = type(e)
        for x in c.__mro__:
            if x.__module__ != 'builtins':
                EXT_BASES.setdefault('%s.%s' % (x.__module__, x.__name__), '%s.%s' % (
                    x.__mro__[1].__module__, x.__mro__[1].__name__))
        return [(st, I.raise_(st, '%s.%s' % (c.__module__, c.__name__), node, fr, str(e)))]
    return [(st, from_py(st, r))]


def sub_with(I, args, kwargs, st, fr, node):
    """re.sub(pattern, function, string[, flags=]) -> outcomes or None"""
    pat, f, text = args
    if not isinstance(f, (FuncV, BoundV, PartialV)) or set(kwargs) - {'flags'}:
        return None
    try:
        ms = list(lib('re.finditer')(to_py(st, pat), to_py(st, text), to_py(st, kwargs.get('flags', Const(0)))))
    except Exception:
        return None
    outs = [(st, [])]
    for m in ms:
        nxt = []
        for s, parts in outs:
            if isinstance(parts, Raise):
                nxt.append((s, parts))
                continue
            for s2, v in I.call(f, [Const(m)], {}, s, fr, node):
                nxt.append((s2, v if isinstance(v, Raise) else parts + [v]))
        outs = nxt
    res = []
    for s, parts in outs:
        if isinstance(parts, Raise):
            res.append((s, parts))
        elif all(isinstance(x, Const) and type(x.v) is type(text.v) for x in parts):
            r, pos = text.v[:0], 0
            for m, x in zip(ms, parts):
                r += text.v[pos:m.start()] + x.v
                pos = m.end()
            res.append((s, Const(r + text.v[pos:])))
        else:
            return None
    return res


def raises_const(I, st, e, fr, node):
    return [(st, I.raise_(st, 'builtins.' + type(e).__name__, node, fr, str(e)))]


def b_len(I, args, kwargs, st, fr, node):
    v = args[0]
    if isinstance(v, Const):
        try:
            return [(st, Const(len(v.v)))]
        except TypeError as e:
            return raises_const(I, st, e, fr, node)
    items = I.seq_items(st, v)
    if items is not None:
        return [(s, Const(len(l))) for s, l in I.materialise(st, items)]
    if isinstance(v, Ref):
        h = st.heap[v.oid]
        if isinstance(h, HDict):
            n = len([1 for k, x in h.entries if x is not DELETED])
            if h.base is None:
                return [(st, Const(n))]
            return [(st, Sym(('len', h.base, n), types=INT))]
        if isinstance(h, HObj) and isinstance(h.cls, ClassInfo):
            if I.find_member(h.cls, '__len__'):
                return I.call_method(st, v, '__len__', [], {}, fr, node)
            if not h.cls.ext_bases():
                return [(st, I.raise_(st, 'builtins.TypeError', node, fr, 'no len()'))]
        if isinstance(h, HIter):
            return [(st, I.raise_(st, 'builtins.TypeError', node, fr,
                                  "object of type 'generator' has no len()"))]
    if isinstance(v, Sym):
        k = ('iterlen', v.key)
        if k in st.facts:
            return [(st, Const(st.facts[k]))]
        # strings keep a symbolic length; other unknown sequences get a bounded length
        if v.types == STR or I.decide(st, ('isinstance', v.key, 'builtins.str')):
            return [(st, Sym(('len', v.key), types=INT))]
        return [(s, Const(len(l))) for s, l in I.expand(st, v)]
    return [(st, Sym(('len', v.key), types=INT))]


def b_isinstance(I, args, kwargs, st, fr, node):
    return [(s, b if isinstance(b, Raise) else boolc(b))
            for s, b in I.isinstance_(st, args[0], args[1], fr, node)]


def b_issubclass(I, args, kwargs, st, fr, node):
    a, b = args
    bs = I.seq_items(st, b)
    bs = list(bs) if bs is not None else [b]

    def nm(x):
        return x.ci.qual if isinstance(x, ClassV) else x.name if isinstance(x, ExtV) else None
    if nm(a) is not None and all(nm(x) for x in bs):
        return [(st, boolc(any(I.cls_sub(nm(a), nm(x)) for x in bs)))]
    if isinstance(a, (Const, Ref, TupleV, FuncV, BoundV, CoroV, PartialV)):
        return [(st, I.raise_(st, 'builtins.TypeError', node, fr, 'issubclass() arg 1 must be a class'))]
    if isinstance(a, Sym) and a.key[0] == 'type' and all(nm(x) for x in bs):
        outs, pend = [], [st]
        for x in bs:
            nxt = []
            for s in pend:
                for s2, r in I.branch(s, ('isinstance', a.key[1], norm_ext(nm(x)))):
                    if r:
                        outs.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            pend = nxt
        return outs + [(s, FALSE) for s in pend]
    return [(st, Sym(('isinstance', ('classof', a.key), '|'.join(str(nm(x)) for x in bs))))]


def b_list(kind):
    def f(I, args, kwargs, st, fr, node):
        if not args:
            return [(st, st.alloc(HList((), kind)) if kind != 'tuple' else TupleV([]))]
        a = args[0]
        if isinstance(a, StarA):
            a = a.v
        out = []
        for s, segs in I.segments(st, a, fr, node):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue
            if kind in ('set', 'frozenset'):
                segs = I.dedup(segs)
            if kind == 'tuple':
                out.append((s, TupleV(segs)))
            else:
                out.append((s, s.alloc(HList(segs, 'set' if kind == 'frozenset' else kind))))
        return out
    return f


def b_deque(I, args, kwargs, st, fr, node):
    m = args[1] if len(args) > 1 else kwargs.get('maxlen', NONE)
    if not args:
        outs = [(st, st.alloc(HList((), 'deque')))]
    else:
        outs = b_list('deque')(I, args[:1], {}, st, fr, node)
    if isinstance(m, Const) and isinstance(m.v, int):
        for s, d in outs:
            if isinstance(d, Ref):
                s.meta[('maxlen', d.oid)] = m.v
                h = s.heap[d.oid]
                if not any(isinstance(x, Seg) for x in h.items):
                    s.heap[d.oid] = HList(h.items[max(0, len(h.items) - m.v):], 'deque')
    return outs


def b_dict(I, args, kwargs, st, fr, node):
    outs = []
    if args:
        a = args[0]
        if isinstance(a, Ref) and isinstance(st.heap[a.oid], HDict):
            h = st.heap[a.oid]
            d = st.alloc(HDict(h.entries, h.base))
            outs = [(st, d)]
        elif isinstance(a, Sym):
            outs = [(st, st.alloc(HDict((), a.key)))]
        else:
            for s, items in I.iter_values(st, a, fr, node):
                if isinstance(items, Raise):
                    outs.append((s, items))
                    continue
                d = s.alloc(HDict())
                bad = None
                for it in items:
                    kv = I.seq_items(s, it)
                    if kv is None and isinstance(it, Sym):
                        kv = [Sym(('item', it.key, ('c', 'int', 0))), Sym(('item', it.key, ('c', 'int', 1)))]
                    if kv is None or len(kv) != 2:
                        bad = I.raise_(s, 'builtins.ValueError', node, fr, 'dict() element')
                        break
                    I.dict_set(s, d, kv[0], kv[1])
                outs.append((s, bad or d))
    else:
        outs = [(st, st.alloc(HDict()))]
    for s, d in outs:
        if isinstance(d, Raise):
            continue
        for k, v in kwargs.items():
            if k is None:
                continue
            I.dict_set(s, d, Const(k), v)
        if None in kwargs:
            h = s.heap[d.oid]
            s.heap[d.oid] = HDict(h.entries, ('merge', h.base, tuple(x.key for x in kwargs[None]
                                                                  if isinstance(x, V))))
    return outs


def b_defaultdict(I, args, kwargs, st, fr, node):
    fac = args[0] if args else None
    if isinstance(fac, Const):
        fac = None
    d = st.alloc(HDict((), None, fac))
    if len(args) > 1:
        return [(s, r if isinstance(r, Raise) else d) for s, r in I.call(
            BuiltinM(d, 'update'), [args[1]], {}, st, fr, node)]
    return [(st, d)]


def b_str(I, args, kwargs, st, fr, node):
    if not args:
        return [(st, Const(''))]
    return I.to_str(st, args[0], fr, node)


def b_repr(I, args, kwargs, st, fr, node):
    v = args[0]
    if isinstance(v, Const):
        return [(st, Const(repr(v.v)))]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj) and isinstance(
            st.heap[v.oid].cls, ClassInfo) and I.find_member(st.heap[v.oid].cls, '__repr__'):
        return I.call_method(st, v, '__repr__', [], {}, fr, node)
    try:
        return [(st, Const(repr(to_py(st, v))))]
    except NotPy:
        pass
    return [(st, Sym(('pure', 'repr', v.key), types=STR))]


def b_conv(T):
    def f(I, args, kwargs, st, fr, node):
        if not args:
            return [(st, Const(T()))]
        v = args[0]
        from .interp import signum
        if T is int and isinstance(v, ExtV) and signum(v) is not None:
            return [(st, Const(signum(v)))]
        if isinstance(v, Const) and all(isinstance(a, Const) for a in args):
            try:
                return [(st, Const(T(*[a.v for a in args])))]
            except Exception as e:
                return raises_const(I, st, e, fr, node)
        if T is bool:
            if isinstance(v, Sym):
                k = ('truthy', v.key)
                d = I.decide(st, k)
                if d is not None:
                    return [(st, boolc(d))]
                if v.key[0] in ('is', 'eq', 'lt', 'in', 'not', 'isinstance', 'hasattr'):
                    return [(st, v)]
                return [(s, boolc(b)) for s, b in I.truth(st, v, fr, node)]
            return [(s, b if isinstance(b, Raise) else boolc(b)) for s, b in I.truth(st, v, fr, node)]
        tn = 'builtins.' + T.__name__
        if isinstance(v, Sym) and v.types == frozenset([tn]):
            return [(st, v)]
        e = I.ev('call', tn, st, node, fr, args=tuple(args))
        from .interp import Call
        c = Call(tn, ExtV(tn), None, None, args, kwargs, node, fr)
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], (HList, HDict)):
            return [(st, I.raise_(st, 'builtins.TypeError', node, fr, tn + '() argument'))]
        return I.opaque_result(c, e, st, fr, node,
                               Sym(('pure', tn, v.key), types=frozenset([tn])))
    return f


def b_type(I, args, kwargs, st, fr, node):
    if len(args) == 1:
        return [(st, I.type_of(st, args[0]))]
    bases = I.seq_items(st, args[1])
    h = st.heap.get(args[2].oid) if isinstance(args[2], Ref) else None
    if not isinstance(args[0], Const) or bases is None or not isinstance(h, HDict) or h.base is not None \
            or not all(isinstance(b, (ClassV, ExtV)) for b in bases) \
            or not all(isinstance(k, Const) for k, _ in h.entries):
        return None
    k = st.meta.get('types made', 0) + 1
    st.meta['types made'] = k
    ci = I.model.cls_made(fr.mod, args[0].v, [
        b.ci if isinstance(b, ClassV) else b.name for b in bases], k)
    st.heap['ca:' + ci.qual] = HEnv({k.v: v for k, v in h.entries}, None, None)
    return [(st, ClassV(ci))]


def b_property(I, args, kwargs, st, fr, node):
    if len(args) > 1 or set(kwargs) - {'fget', 'doc'}:
        return None
    fget = args[0] if args else kwargs.get('fget', NONE)
    return [(st, st.alloc(HObj('builtins.property', {'fget': fget}), 'p'))]


def unwrapped(st, f):
    while True:
        w = st.heap.get(('fattrs', f.key), {}).get('__wrapped__')
        if w is None:
            return f
        f = w


def params_of(I, st, f, follow=True):
    """The parameters of a function: [(name, kind 'pos'|'var'|'kw'|'varkw', has default)], or None."""
    if isinstance(f, BoundV):
        ps = params_of(I, st, f.fn, follow)
        return ps[1:] if ps and ps[0][1] == 'pos' else ps
    if follow:
        f = unwrapped(st, f)
        if isinstance(f, BoundV):
            return params_of(I, st, f)
    if isinstance(f, PartialV):
        ps = params_of(I, st, f.fn, follow)
        if ps is None:
            return None
        ps = [p for p in ps if p[1] != 'pos'][:0] + [
            p for i, p in enumerate(ps) if p[1] != 'pos' or i >= len(f.args)]
        out, kw = [], False
        for n, kind, dflt in ps:
            if kind == 'pos' and n in f.kwargs:
                kw = True
            if kind == 'var' and kw:
                continue
            out.append((n, 'kw' if kw and kind == 'pos' else kind, dflt or n in f.kwargs))
        return out
    if not isinstance(f, FuncV):
        return None
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = [(x.arg, 'pos', i >= len(pos) - len(a.defaults)) for i, x in enumerate(pos)]
    if a.vararg:
        out.append((a.vararg.arg, 'var', True))
    out += [(x.arg, 'kw', d is not None) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    if a.kwarg:
        out.append((a.kwarg.arg, 'varkw', True))
    return out


KINDS = {'pos': 1, 'var': 2, 'kw': 3, 'varkw': 4}
KIND_NAMES = ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD')


def b_signature(I, args, kwargs, st, fr, node):
    if kwargs:
        return None
    ps = params_of(I, st, args[0])
    if ps is None:
        return None
    d = st.alloc(HDict(tuple((Const(n), st.alloc(HObj('inspect.Parameter', {
        'name': Const(n), 'kind': Const(KINDS[k]), **{
            a: Const(i) for i, a in enumerate(KIND_NAMES)}}), 'p')) for n, k, _ in ps), None))
    return [(st, st.alloc(HObj('inspect.Signature', {'parameters': d}), 'sig'))]


def b_getfullargspec(I, args, kwargs, st, fr, node):
    ps = params_of(I, st, args[0], follow=False)
    if ps is None:
        return None

    def names(kind):
        return st.alloc(HList([Const(n) for n, k, _ in ps if k == kind]))

    def one(kind):
        r = [Const(n) for n, k, _ in ps if k == kind]
        return r[0] if r else NONE
    return [(st, st.alloc(HObj('inspect.FullArgSpec', {
        'args': names('pos'), 'kwonlyargs': names('kw'), 'varargs': one('var'),
        'varkw': one('varkw')}), 'spec'))]


def b_getcallargs(I, args, kwargs, st, fr, node):
    ps = params_of(I, st, args[0], follow=False)
    if ps is None or any(k is None for k in kwargs):
        return None
    pos = [p for p in ps if p[1] == 'pos']
    given = [p[0] for p in pos[:len(args) - 1]]
    names = [p[0] for p in ps if p[1] in ('pos', 'kw')]
    bad = len(args) - 1 > len(pos) and not any(p[1] == 'var' for p in ps) or \
        any(k in given for k in kwargs) or \
        any(k not in names for k in kwargs) and not any(p[1] == 'varkw' for p in ps) or \
        any(p[1] in ('pos', 'kw') and not p[2] and p[0] not in given and p[0] not in kwargs for p in ps)
    if bad:
        return [(st, I.raise_(st, 'builtins.TypeError', node, fr, 'arguments do not match'))]
    return [(st, Sym(('callargs', args[0].key)))]


def b_unwrap(I, args, kwargs, st, fr, node):
    if kwargs or not isinstance(args[0], (FuncV, PartialV, BoundV)):
        return None
    return [(st, unwrapped(st, args[0]))]


def b_callable(I, args, kwargs, st, fr, node):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, ClassV, PartialV, BuiltinM)):
        return [(st, TRUE)]
    if isinstance(v, (Const, TupleV)):
        return [(st, FALSE)]
    if isinstance(v, Ref):
        h = st.heap[v.oid]
        if isinstance(h, HObj):
            if isinstance(h.cls, ClassInfo):
                return [(st, boolc(I.find_member(h.cls, '__call__') is not None))]
            return [(st, Sym(('callable', v.key)))]
        return [(st, FALSE)]
    if isinstance(v, ExtV):
        return [(st, TRUE)]
    if isinstance(v, Sym) and v.types:
        rs = [t in ('types.FunctionType',) or (I.class_by_qual(t) is not None and I.find_member(
            I.class_by_qual(t), '__call__') is not None) for t in v.types]
        if all(rs):
            return [(st, TRUE)]
        if not any(rs):
            return [(st, FALSE)]
    return [(st, Sym(('callable', v.key)))]


def b_hasattr(I, args, kwargs, st, fr, node):
    v, n = args
    if not isinstance(n, Const):
        return [(st, Sym(('hasattr', v.key, n.key)))]
    if n.v == '__class__':
        return [(st, TRUE)]
    if isinstance(v, Sym) and not (v.cls is not None and I.find_member(v.cls, n.v)):
        ov = st.heap.get(('symattrs', v.key), {})
        if n.v in ov:
            return [(st, TRUE)]
        if v.types:
            rs = []
            for t in v.types:
                ci = I.class_by_qual(t)
                if ci is not None:
                    rs.append(I.find_member(ci, n.v) is not None)
                elif t.startswith('builtins.'):
                    rs.append(hasattr(getattr(builtins, t[9:]), n.v))
                else:
                    rs.append(None)
            if all(r is True for r in rs):
                return [(st, TRUE)]
            if all(r is False for r in rs):
                return [(st, FALSE)]
        return [(st, Sym(('hasattr', v.key, n.v)))]
    if isinstance(v, BuiltinM):
        return [(st, TRUE)]
    if isinstance(v, ExtV) and v.name.startswith('builtins.') and v.name.count('.') == 1:
        t = getattr(builtins, v.name[9:], None)
        if isinstance(t, type):
            return [(st, boolc(hasattr(t, n.v)))]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], (HList, HDict, HIter)):
        T = {'HList': list, 'HDict': dict, 'HIter': type(x for x in ())}[type(st.heap[v.oid]).__name__]
        if isinstance(st.heap[v.oid], HList) and st.heap[v.oid].kind == 'set':
            T = set
        return [(st, boolc(hasattr(T, n.v)))]
    if isinstance(v, TupleV):
        return [(st, boolc(hasattr(tuple, n.v)))]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj) and n.v == '__iter__':
        h = st.heap[v.oid]
        if isinstance(h.cls, ClassInfo) and not h.cls.ext_bases():
            return [(st, boolc(I.find_member(h.cls, '__iter__') is not None))]
    s0 = st.copy()
    out = []
    for s, r in I.load_attr(st, v, n.v, fr, node):
        if isinstance(r, Raise) and I.exc_name(s, r.exc) == 'builtins.AttributeError':
            out.append((s, FALSE))
        elif isinstance(r, Raise):
            out.append((s, r))
        elif isinstance(r, Sym) and r.aname == n.v and r.recv is v:
            out.append((s, Sym(('hasattr', v.key, n.v))))
        else:
            out.append((s, TRUE))
    return out


def b_getattr(I, args, kwargs, st, fr, node):
    v, n = args[0], args[1]
    if not isinstance(n, Const):
        return [(st, Sym(('getattr', v.key, n.key)))]
    out = []
    if len(args) > 2 and isinstance(v, Sym) and not (v.cls is not None and I.find_member(v.cls, n.v)):
        ov = st.heap.get(('symattrs', v.key), {})
        if n.v in ov:
            return [(st, ov[n.v])]
        for s, b in I.branch(st, ('hasattr', v.key, n.v)):
            if b:
                out.extend(I.load_attr(s, v, n.v, fr, node))
            else:
                out.append((s, args[2]))
        return out
    name = n.v
    for s, r in I.load_attr(st, v, name, fr, node):
        if isinstance(r, Raise) and len(args) > 2 and \
                I.exc_name(s, r.exc) == 'builtins.AttributeError':
            out.append((s, args[2]))
        else:
            out.append((s, r))
    return out


def b_setattr(I, args, kwargs, st, fr, node):
    if isinstance(args[1], Const):
        return [(s, NONE if o[0] == 'normal' else Raise(o[1]))
                for s, o in I.store_attr(st, args[0], args[1].v, args[2], fr, node)]
    return [(st, NONE)]


def b_rawsetattr(I, args, kwargs, st, fr, node):
    h = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
    if isinstance(args[1], Const) and isinstance(h, HObj):
        h = h.copy()
        h.attrs[args[1].v] = args[2]
        st.heap[args[0].oid] = h
        return [(st, NONE)]
    return b_setattr(I, args, kwargs, st, fr, node)


def b_delattr(I, args, kwargs, st, fr, node):
    if isinstance(args[1], Const):
        I.del_attr(st, args[0], args[1].v)
    return [(st, NONE)]


def b_iter(I, args, kwargs, st, fr, node):
    v = args[0]
    if len(args) > 1:
        return [(st, st.alloc(HIter((), lazy=('call', args[0], args[1]))))]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HIter):
        return [(st, v)]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], (HDict, HList)):
        I.refresh_view(st, v)
        h = st.heap[v.oid]
        if isinstance(h, HList):
            it = st.alloc(HIter(h.items, 0, v))
            if ('view', v.oid) in st.meta:
                oid = st.meta[('view', v.oid)][1]
                st.meta[('iterof', it.oid)] = (oid, I.dict_size(st.heap[oid]))
            return [(st, it)]
        if h.base is None:
            it = st.alloc(HIter([k for k, x in h.entries if x is not DELETED], 0, v))
            st.meta[('iterof', it.oid)] = (v.oid, I.dict_size(h))
            return [(st, it)]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj) and \
            isinstance(st.heap[v.oid].cls, ClassInfo) and I.find_member(st.heap[v.oid].cls, '__iter__'):
        out = []
        for s, r in I.call_method(st, v, '__iter__', [], {}, fr, node):
            if isinstance(r, (Raise, Ref)):
                out.append((s, r))
            else:
                out.extend(b_iter(I, [r], {}, s, fr, node))
        return out
    live = v if isinstance(v, Ref) else None
    return I.bind(I.segments(st, v, fr, node), lambda s, l: [(s, s.alloc(HIter(l, 0, live)))])


def b_next(I, args, kwargs, st, fr, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HIter):
        h = st.heap[v.oid]
        if h.lazy is not None and h.lazy[0] == 'count':
            st.heap[v.oid] = HIter((), lazy=('count', h.lazy[1] + h.lazy[2], h.lazy[2]))
            return [(st, Const(h.lazy[1]))]
        if h.lazy is not None and h.lazy[0] == 'call':
            out = []
            for s, r in I.call(h.lazy[1], [], {}, st, fr, node):
                if isinstance(r, Raise):
                    out.append((s, r))
                    continue
                for s2, e in I.eq_(r, h.lazy[2], s, fr, node):
                    if isinstance(e, Raise):
                        out.append((s2, e))
                        continue
                    for s3, b in I.truth(s2, e, fr):
                        if b is not True:
                            out.append((s3, r))
                            continue
                        s3.heap[v.oid] = HIter(())
                        out.extend(b_next(I, args, kwargs, s3, fr, node))
            return out
        if h.lazy is not None:
            if isinstance(node, ast.Call) and node.args and isinstance(
                    node.args[0], (ast.Call, ast.GeneratorExp)):
                # nobody else has it: no more than the first item is computed
                def body(s, x):
                    return [(s, ('ret', x))]
                out = []
                for s, o in I.iterate(st, v, fr, node, body):
                    if o is not NORMAL and o[0] == 'ret':
                        out.append((s, o[1]))
                    elif o is not NORMAL:
                        out.append((s, Raise(o[1])))
                    elif len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        out.append((s, I.raise_(s, 'builtins.StopIteration', node, fr)))
                return out
            return [r for s in I.force(st, v, fr, node) for r in b_next(I, args, kwargs, s, fr, node)]
        if I.stale_iter(st, v):
            return [(st, I.raise_(st, 'builtins.RuntimeError', node, fr,
                                  'dictionary changed size during iteration'))]
        h = st.heap[v.oid]
        rest = h.items[h.pos:]
        if rest and isinstance(rest[0], Seg):
            outs = []
            for s, l in I.materialise(st, rest):
                s.heap[v.oid] = HIter(l, 0, err=h.err)
                outs.extend(b_next(I, args, kwargs, s, fr, node))
            return outs
        if rest:
            st.heap[v.oid] = HIter(h.items, h.pos + 1, h.live, err=h.err)
            return [(st, rest[0])]
        if h.live is not None:
            st.heap[v.oid] = HIter(())
        if h.err is not None:
            st.heap[v.oid] = HIter(())
            return [(st, Raise(h.err))]
        if len(args) > 1:
            return [(st, args[1])]
        return [(st, I.raise_(st, 'builtins.StopIteration', node, fr))]
    if isinstance(v, Sym):
        e = I.ev('call', 'builtins.next', st, node, fr, args=tuple(args))
        st.n += 1
        return [(st, Sym(('call', 'next', v.key, st.n)))]
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj):
        return I.call_method(st, v, '__next__', [], {}, fr, node)
    return [(st, I.raise_(st, 'builtins.TypeError', node, fr, 'not an iterator'))]


def is_lazy(I, st, v):
    """An iterator that computes its items (rather than a container)."""
    if not isinstance(v, Ref):
        return False
    h = st.heap[v.oid]
    return isinstance(h, HIter) and h.lazy is not None or isinstance(h, HObj) and isinstance(
        h.cls, ClassInfo) and bool(I.find_member(h.cls, '__iter__'))


def b_enumerate(I, args, kwargs, st, fr, node):
    src = args[0] if args else kwargs['iterable']
    start = args[1] if len(args) > 1 else kwargs.get('start', Const(0))
    if is_lazy(I, st, src):
        return [(st, st.alloc(HIter((), lazy=('enum', src, start))))]
    s0 = start.v if isinstance(start, Const) else 0
    return [(s, l if isinstance(l, Raise) else s.alloc(HIter(
        [TupleV([Const(i + s0) if isinstance(start, Const) else Sym(('bin', '+', start.key, ('c', 'int', i))), x])
         for i, x in enumerate(l)])))
        for s, l in I.iter_values(st, src, fr, node)]


def b_zip(I, args, kwargs, st, fr, node):
    strict = kwargs.get('strict')
    if any(is_lazy(I, st, a) for a in args) or strict is not None:
        return [(st, st.alloc(HIter((), lazy=('zip', tuple(args), isinstance(
            strict, Const) and bool(strict.v)))))]
    outs = [(st, [])]
    for a in args:
        nxt = []
        for s, ls in outs:
            if isinstance(ls, Raise):
                nxt.append((s, ls))
                continue
            for s2, l in I.iter_values(s, a, fr, node):
                nxt.append((s2, l if isinstance(l, Raise) else ls + [l]))
        outs = nxt
    return [(s, ls if isinstance(ls, Raise) else s.alloc(HIter([TupleV(t) for t in zip(*ls)])))
            for s, ls in outs]


def b_count(I, args, kwargs, st, fr, node):
    a = [x.v if isinstance(x, Const) else None for x in args]
    kw = {k: v.v if isinstance(v, Const) else None for k, v in kwargs.items()}
    start = a[0] if a else kw.get('start', 0)
    step = a[1] if len(a) > 1 else kw.get('step', 1)
    if start is None or step is None:
        st.n += 1
        return [(st, Sym(('call', 'count', st.n)))]
    return [(st, st.alloc(HIter((), lazy=('count', start, step))))]


def b_range(I, args, kwargs, st, fr, node):
    if all(isinstance(a, Const) for a in args):
        try:
            r = range(*[a.v for a in args])
            if len(r) <= 300:
                return [(st, TupleV([Const(i) for i in r]))]
        except Exception as e:
            return raises_const(I, st, e, fr, node)
    return [(st, TupleV([Seg(Sym(('range',) + tuple(a.key for a in args)))]))]


def b_map(I, args, kwargs, st, fr, node):
    if len(args) < 2 or any(isinstance(a, StarA) for a in args):
        st.n += 1
        return [(st, Sym(('call', 'map', st.n)))]
    return [(s, r if isinstance(r, Raise) else s.alloc(HIter((), lazy=('map', args[0], tuple(args[1:])))))
            for s, r in each_iterable(I, args[1:], st, fr, node)]


def b_filter(I, args, kwargs, st, fr, node):
    return [(s, r if isinstance(r, Raise) else s.alloc(HIter((), lazy=('filter', args[0], args[1]))))
            for s, r in each_iterable(I, args[1:], st, fr, node)]


def each_iterable(I, args, st, fr, node):
    outs = [(st, NONE)]
    for a in args:
        outs = [r for s, x in outs for r in (
            [(s, x)] if isinstance(x, Raise) else I.check_iterable(s, a, fr, node))]
    return outs


def b_anyall(is_any):
    def f(I, args, kwargs, st, fr, node):
        def body(s, x):
            return [(s2, ('raise', b.exc) if isinstance(b, Raise) else BREAK if b == is_any else NORMAL)
                    for s2, b in I.truth(s, x, fr, node)]
        return [(s, boolc(not is_any) if o is NORMAL else boolc(is_any) if o is BREAK else Raise(o[1]))
                for s, o in I.iterate(st, args[0], fr, node, body)]
    return f


def b_sorted(I, args, kwargs, st, fr, node):
    out = []
    for s, items in I.iter_values(st, args[0], fr, node):
        if isinstance(items, Raise):
            out.append((s, items))
        elif all(isinstance(i, Const) for i in items) and 'key' not in kwargs:
            try:
                l = sorted(items, key=lambda c: c.v, reverse=bool(
                    isinstance(kwargs.get('reverse'), Const) and kwargs['reverse'].v))
            except TypeError:
                l = items
            out.append((s, s.alloc(HList(l))))
        else:
            k = kwargs.get('key')
            keys = []
            s2 = s
            for x in items:
                if k is not None and not (isinstance(k, Const) and k.v is None):
                    rs = I.call(k, [x], {}, s2, fr, node)
                    if len(rs) != 1 or isinstance(rs[0][1], Raise):
                        break
                    s2, x = rs[0]
                if isinstance(x, TupleV):
                    p = []
                    for c in x.items:
                        if not isinstance(c, Const):
                            break
                        p.append(c.v)
                    keys.append((tuple(p), len(p) == len(x.items)))
                elif isinstance(x, Const):
                    keys.append((x.v, True))
                else:
                    break
            if len(keys) == len(items):
                try:
                    if not all(whole for _, whole in keys):     # what is known has to decide
                        n = min(len(p) for p, _ in keys)
                        keys = [(p[:n], True) for p, _ in keys]
                        if len({p for p, _ in keys}) < len(keys):
                            raise TypeError
                    idx = sorted(range(len(items)), key=lambda i: keys[i][0], reverse=bool(
                        isinstance(kwargs.get('reverse'), Const) and kwargs['reverse'].v))
                    out.append((s2, s2.alloc(HList([items[i] for i in idx]))))
                    continue
                except TypeError:
                    pass
            I.unknown.add('sorted() of unknown values keeps the given order')
            out.append((s2, s2.alloc(HList(items))))
    return out


def b_reversed(I, args, kwargs, st, fr, node):
    out = []
    for s, segs in I.segments(st, args[0], fr, node):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        for s2, l in I.materialise(s, segs):
            out.append((s2, s2.alloc(HIter(l[::-1]))))
    return out


def b_minmax(name):
    def f(I, args, kwargs, st, fr, node):
        if all(isinstance(a, Const) for a in args) and len(args) > 1:
            return [(st, Const(getattr(builtins, name)(*[a.v for a in args])))]
        items = list(args)
        if len(args) == 1 and not set(kwargs) - {'default'}:
            out = []
            for s, l in I.iter_values(st, args[0], fr, node):
                if isinstance(l, Raise):
                    out.append((s, l))
                elif l is not None and all(isinstance(a, Const) for a in l):
                    if l:
                        out.append((s, Const(getattr(builtins, name)([a.v for a in l]))))
                    elif 'default' in kwargs:
                        out.append((s, kwargs['default']))
                    else:
                        out.append((s, I.raise_(s, 'builtins.ValueError', node, fr, name + '() of nothing')))
                else:
                    s.n += 1
                    out.append((s, Sym(('pure', name) + tuple(a.key for a in items))))
            return out
        st.n += 1
        return [(st, Sym(('pure', name) + tuple(a.key for a in items)))]
    return f


def b_sum(I, args, kwargs, st, fr, node):
    out = []
    for s, items in I.iter_values(st, args[0], fr, node):
        if isinstance(items, Raise):
            out.append((s, items))
            continue
        cur = [(s, args[1] if len(args) > 1 else Const(0))]
        for x in items:
            nxt = []
            for s2, acc in cur:
                if isinstance(acc, Raise):
                    nxt.append((s2, acc))
                else:
                    nxt.extend(I.binop('+', acc, x, s2, fr, node))
            cur = nxt
        out.extend(cur)
    return out


def b_id(I, args, kwargs, st, fr, node):
    a = args[0]
    if isinstance(a, Ref):
        return [(st, Const(int.from_bytes(str(a.oid).encode(), 'big')))]
    return [(st, Sym(('id', a.key), types=INT))]


def b_print(I, args, kwargs, st, fr, node):
    I.ev('call', 'builtins.print', st, node, fr, args=tuple(args), kwargs=kwargs)
    return [(st, NONE)]


def b_cast(I, args, kwargs, st, fr, node):
    return [(st, args[1])]


def b_object(I, args, kwargs, st, fr, node):
    return [(st, st.alloc(HObj('builtins.object', {}), 'x'))]


def b_partial(I, args, kwargs, st, fr, node):
    return [(st, PartialV(args[0], [a for a in args[1:]], {k: v for k, v in kwargs.items() if k}))]


def b_wraps(I, args, kwargs, st, fr, node):
    if not args:
        return [(st, ExtV('sa.identity'))]
    return [(st, PartialV(ExtV('functools.update_wrapper'), (), {'wrapped': args[0]}))]


def b_update_wrapper(I, args, kwargs, st, fr, node):
    w = args[0]
    f = args[1] if len(args) > 1 else kwargs['wrapped']
    if isinstance(w, (FuncV, PartialV)):
        ov = dict(st.heap.get(('fattrs', w.key), {}))
        g = f.fn if isinstance(f, BoundV) else f
        if isinstance(g, PartialV):
            ov.update(st.heap.get(('fattrs', g.key), {}))
        if isinstance(g, FuncV):
            ov.update(st.heap.get(('fattrs', g.key), {}))
            for a in ('__name__', '__qualname__', '__doc__', '__module__'):
                for s, v in I.load_attr(st, g, a, fr, node):
                    ov[a] = v
        ov['__wrapped__'] = f
        st.heap[('fattrs', w.key)] = ov
    return [(st, w)]


def b_namedtuple(I, args, kwargs, st, fr, node):
    names = args[1] if len(args) > 1 else kwargs.get('field_names')
    if isinstance(names, Const) and isinstance(names.v, str):
        names = names.v.replace(',', ' ').split()
    else:
        items = I.seq_items(st, names)
        if items is None or not all(isinstance(x, Const) for x in items):
            return None
        names = [x.v for x in items]
    ds = kwargs.get('defaults', NONE)
    items = [] if ds.key == NONE.key else I.seq_items(st, ds)
    if items is None or not isinstance(args[0], Const) or not all(isinstance(x, Const) for x in items):
        return None
    defaults = {n: ast.Constant(d.v) for n, d in zip(names[len(names) - len(items):], items)}
    return [(st, ClassV(I.model.cls_namedtuple(fr.mod, args[0].v, names, defaults)))]


def b_dc_replace(I, args, kwargs, st, fr, node):
    return I.call_method(st, args[0], '__replace__', list(args[1:]), kwargs, fr, node)


def b_class_attr_of(name):
    def f(I, args, kwargs, st, fr, node):
        return I.load_attr(st, args[0], name, fr, node)
    return f


def b_identity(I, args, kwargs, st, fr, node):
    return [(st, args[0])]


def b_chain(I, args, kwargs, st, fr, node):
    outs = [(st, [])]
    for a in args:
        if isinstance(a, StarA):
            for s, l in outs:
                l.append(Seg(Sym(('chain', a.v.key))))
            continue
        nxt = []
        for s, l in outs:
            if isinstance(l, Raise):
                nxt.append((s, l))
                continue
            for s2, segs in I.segments(s, a, fr, node):
                nxt.append((s2, segs if isinstance(segs, Raise) else l + list(segs)))
        outs = nxt
    return [(s, l if isinstance(l, Raise) else s.alloc(HIter(l))) for s, l in outs]


def b_chain_iter(I, args, kwargs, st, fr, node):
    out = []
    for s, items in I.iter_values(st, args[0], fr, node):
        if isinstance(items, Raise):
            out.append((s, items))
        else:
            out.extend(b_chain(I, items, {}, s, fr, node))
    return out


def b_copy(I, args, kwargs, st, fr, node):
    v = args[0]
    if isinstance(v, Ref):
        h = st.heap[v.oid]
        if isinstance(h, HList):
            return [(st, st.alloc(HList(h.items, h.kind)))]
        if isinstance(h, HDict):
            return [(st, st.alloc(HDict(h.entries, h.base, h.factory,
                                        'dict' if h.kind == 'environ' else h.kind)))]
        if isinstance(h, HObj):
            r = st.alloc(h.copy())
            return [(st, r)]
    return [(st, v)]


def b_deepcopy(I, args, kwargs, st, fr, node):
    memo = {}

    def cp(v):
        if isinstance(v, TupleV):
            return TupleV([cp(x) for x in v.items])
        if isinstance(v, BoundV):
            return BoundV(v.fn, cp(v.selfv))
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        h = st.heap[v.oid]
        if isinstance(h, HList):
            r = memo[v.oid] = st.alloc(HList((), h.kind))
            st.heap[r.oid] = HList([cp(x) for x in h.items], h.kind)
            return r
        if isinstance(h, HDict):
            r = memo[v.oid] = st.alloc(HDict())
            st.heap[r.oid] = HDict([(cp(k), x if x is DELETED else cp(x)) for k, x in h.entries],
                                   h.base, h.factory, 'dict' if h.kind == 'environ' else h.kind)
            return r
        if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and not I.is_enum(h.cls):
            n = h.copy()
            r = memo[v.oid] = st.alloc(n)
            n.attrs.update({k: cp(x) for k, x in h.attrs.items()})
            return r
        return v
    h = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
    if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and I.find_member(h.cls, '__deepcopy__'):
        return I.call_method(st, args[0], '__deepcopy__', [st.alloc(HDict())], {}, fr, node)
    return [(st, cp(args[0]))]


def b_open(I, args, kwargs, st, fr, node):
    from .interp import Call
    c = Call('builtins.open', ExtV('builtins.open'), None, None, args, kwargs, node, fr)
    e = I.ev('call', 'builtins.open', st, node, fr, args=tuple(args), kwargs=kwargs)
    f = st.alloc(HObj('io.File', {'args': TupleV([a for a in args if isinstance(a, V)])}), 'file')
    return I.opaque_result(c, e, st, fr, node, f)


def b_future(I, args, kwargs, st, fr, node):
    e = I.ev('call', 'asyncio.Future', st, node, fr, args=tuple(args), kwargs=kwargs)
    e.result = new_future(I, st)
    return [(st, e.result)]


def b_ensure_future(I, args, kwargs, st, fr, node):
    e = I.ev('call', 'asyncio.ensure_future', st, node, fr, args=tuple(args), kwargs=kwargs)
    if args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], HObj) and \
            st.heap[args[0].oid].cls in FUTURES:
        return [(st, args[0])]
    e.result = new_future(I, st, 'asyncio.Task', coro=args[0] if args else NONE)
    return [(st, e.result)]


def b_rcts(I, args, kwargs, st, fr, node):
    e = I.ev('call', 'asyncio.run_coroutine_threadsafe', st, node, fr, args=tuple(args), kwargs=kwargs)
    e.result = new_future(I, st, 'concurrent.futures.Future', coro=args[0])
    return [(st, e.result)]


def b_exc(name):
    def f(I, args, kwargs, st, fr, node):
        a = {'args': TupleV([x for x in args if isinstance(x, V)])}
        if name in ('builtins.StopIteration', 'builtins.SystemExit'):
            a['value' if name.endswith('Iteration') else 'code'] = args[0] if args else NONE
        return [(st, st.alloc(HObj(name, a), 'x'))]
    return f


def b_vars(I, args, kwargs, st, fr, node):
    if len(args) == 1 and isinstance(args[0], ExtV) and args[0].name == 'math':
        return [(st, st.alloc(HDict([(Const(k), I.extval('math.' + k) if callable(v) else Const(v))
                                     for k, v in sorted(vars(math).items()) if not k.startswith('_')])))]
    return I.load_attr(st, args[0], '__dict__', fr, node)


def b_format(I, args, kwargs, st, fr, node):
    if all(isinstance(a, Const) for a in args):
        return [(st, Const(format(*[a.v for a in args])))]
    return [(st, Sym(('fmt',) + tuple(a.key for a in args), types=STR))]


def b_new(I, args, kwargs, st, fr, node):
    if args and isinstance(args[0], ClassV):
        return [(st, st.alloc(HObj(args[0].ci, {}), 'o'))]
    return None


def b_signals(I, args, kwargs, st, fr, node):
    from .interp import signum
    n = signum(args[0]) if len(args) == 1 and not kwargs else None
    if n is None and isinstance(args[0], Const):
        return [(st, I.raise_(st, 'builtins.ValueError', node, fr, 'not a valid Signals'))]
    if n is None:
        return None
    try:
        return [(st, ExtV('signal.' + signal.Signals(n).name))]
    except ValueError as e:
        return raises_const(I, st, e, fr, node)


def b_bytes(I, args, kwargs, st, fr, node):
    if len(args) == 1 and not isinstance(args[0], Const):
        try:
            args = [Const(to_py(st, args[0]))]
        except NotPy:
            return None
    if all(isinstance(a, Const) for a in args):
        try:
            return [(st, Const(bytes(*[a.v for a in args])))]
        except Exception as e:
            return raises_const(I, st, e, fr, node)
    return None


def b_stringio(I, args, kwargs, st, fr, node):
    return None


def b_getlevel(I, args, kwargs, st, fr, node):
    return None


def b_abs(I, args, kwargs, st, fr, node):
    if isinstance(args[0], Const):
        return [(st, Const(abs(args[0].v)))]
    return [(st, Sym(('pure', 'abs', args[0].key)))]


def b_round(I, args, kwargs, st, fr, node):
    if all(isinstance(a, Const) for a in args):
        return [(st, Const(round(*[a.v for a in args])))]
    return [(st, Sym(('pure', 'round') + tuple(a.key for a in args)))]


def b_isclass(I, args, kwargs, st, fr, node):
    v = args[0]
    if isinstance(v, (ClassV,)):
        return [(st, TRUE)]
    if isinstance(v, ExtV):
        from .interp import is_class_name
        return [(st, boolc(is_class_name(v.name)))]
    if isinstance(v, (Const, TupleV, FuncV, BoundV, Ref)):
        return [(st, FALSE)]
    return [(st, Sym(('isinstance', v.key, 'builtins.type')))]


def b_typename(name, attrs):
    def f(I, args, kwargs, st, fr, node):
        return None
    return f


def b_islice(I, args, kwargs, st, fr, node):
    return None


def b_copyenv(I, args, kwargs, st, fr, node):
    return None


def b_getenv(I, args, kwargs, st, fr, node):
    return builtin_method(I, BuiltinM(Ref('os.environ'), 'get'), args, kwargs, st, fr, node)


def b_memo_pure(name):
    return None


def b_get_origin(I, args, kwargs, st, fr, node):
    return None


BUILTINS = {
    'builtins.len': b_len, 'builtins.eval': b_eval,
    'importlib.import_module': b_import_module, 'builtins.isinstance': b_isinstance, 'builtins.issubclass': b_issubclass,
    'builtins.list': b_list('list'), 'builtins.tuple': b_list('tuple'), 'builtins.set': b_list('set'),
    'builtins.frozenset': b_list('frozenset'), 'builtins.dict': b_dict, 'collections.OrderedDict': b_dict,
    'collections.deque': b_deque, 'collections.defaultdict': b_defaultdict,
    'typing.Deque': b_deque,
    'builtins.str': b_str, 'builtins.repr': b_repr, 'builtins.int': b_conv(int),
    'builtins.float': b_conv(float), 'builtins.bool': b_conv(bool), 'builtins.type': b_type,
    'builtins.callable': b_callable, 'builtins.hasattr': b_hasattr, 'builtins.getattr': b_getattr,
    'builtins.setattr': b_setattr, 'builtins.delattr': b_delattr, 'builtins.iter': b_iter,
    'builtins.next': b_next, 'builtins.enumerate': b_enumerate, 'builtins.zip': b_zip,
    'builtins.range': b_range, 'builtins.map': b_map, 'builtins.filter': b_filter,
    'builtins.any': b_anyall(True), 'builtins.all': b_anyall(False), 'builtins.sorted': b_sorted,
    'builtins.reversed': b_reversed, 'builtins.min': b_minmax('min'), 'builtins.max': b_minmax('max'),
    'builtins.sum': b_sum, 'builtins.id': b_id, 'builtins.hash': b_id, 'builtins.print': b_print,
    'builtins.object': b_object, 'builtins.open': b_open, 'io.open': b_open,
    'builtins.vars': b_vars, 'builtins.format': b_format, 'builtins.bytes': b_bytes, 'signal.Signals': b_signals, 'builtins.object.__new__': b_new,
    'builtins.abs': b_abs, 'builtins.round': b_round,
    'typing.cast': b_cast, 'functools.partial': b_partial, 'functools.wraps': b_wraps,
    'functools.update_wrapper': b_update_wrapper, 'collections.namedtuple': b_namedtuple,
    'dataclasses.replace': b_dc_replace, 'copy.replace': b_dc_replace,
    'sa.identity': b_identity, 'itertools.chain': b_chain, 'itertools.count': b_count, 'itertools.chain.from_iterable': b_chain_iter,
    'copy.copy': b_copy, 'copy.deepcopy': b_deepcopy, 'asyncio.Future': b_future,
    'asyncio.ensure_future': b_ensure_future, 'asyncio.run_coroutine_threadsafe': b_rcts,
    'asyncio.create_task': b_ensure_future,
    'inspect.isclass': b_isclass, 'inspect.isfunction': b_isfunction,
    'inspect.isgeneratorfunction': functools.partial(b_isgeneratorfunction, False),
    'inspect.isasyncgenfunction': functools.partial(b_isgeneratorfunction, True),
    'asyncio.iscoroutinefunction': b_iscoroutinefunction,
    'inspect.iscoroutinefunction': b_iscoroutinefunction,
    'inspect.ismethod': b_ismethod, 'builtins.dir': b_dir, 'os.getenv': b_getenv,
    'builtins.object.__init__': lambda I, a, k, st, fr, n: [(st, NONE)],
    'builtins.object.__setattr__': b_rawsetattr,
    'builtins.staticmethod': b_identity, 'builtins.classmethod': b_identity,
    'builtins.property': b_property, 'inspect.signature': b_signature,
    'inspect.getfullargspec': b_getfullargspec, 'inspect.getcallargs': b_getcallargs,
    'inspect.unwrap': b_unwrap,
    'abc.abstractmethod': b_identity,
}
BUILTINS = {k: v for k, v in BUILTINS.items() if v is not None}
for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTINS.setdefault('builtins.' + _n, b_exc('builtins.' + _n))
BUILTINS['asyncio.CancelledError'] = b_exc('asyncio.CancelledError')
BUILTINS['asyncio.InvalidStateError'] = b_exc('asyncio.InvalidStateError')

ATTRS = {}


# ------------------------------------------------------------------ methods of modelled values
def builtin_method(I, m, args, kwargs, st, fr, node):
    recv, name = m.recv, m.name
    from .interp import Call
    c = Call('.' + name, m, recv, name, args, kwargs, node, fr)
    if isinstance(recv, (Const, TupleV)):
        h = None
    if isinstance(recv, Const):
        if name == 'sub' and type(recv.v).__name__ == 'Pattern' and len(args) == 2:
            r = sub_with(I, [recv, *args], kwargs, st, fr, node)
            if r is not None:
                return r
        return const_method(I, recv, name, args, kwargs, st, fr, node)
    if isinstance(recv, TupleV):
        return list_method(I, recv, None, list(recv.items), name, args, kwargs, st, fr, node)
    if isinstance(recv, (CoroV, CtxV)):
        I.ev('call', '.' + name, st, node, fr, recv=recv, name=name, args=tuple(args))
        return [(st, NONE)]
    h = st.heap[recv.oid]
    if name == 'exc.__init__':
        h.attrs['args'] = TupleV([a for a in args if isinstance(a, V)])
        return [(st, NONE)]
    if name == 'exc.__str__':
        t = h.attrs.get('args')
        if isinstance(t, TupleV) and not t.items:
            return [(st, Const(''))]
        if isinstance(t, TupleV):
            return I.to_str(st, t.items[0] if len(t.items) == 1 else t, fr, node)
    r = I.run_hook(c, st)
    if r is not None:
        return r
    if isinstance(h, HList):
        return list_method(I, recv, h, list(h.items), name, args, kwargs, st, fr, node)
    if isinstance(h, HDict):
        return dict_method(I, recv, h, name, args, kwargs, st, fr, node)
    if isinstance(h, HIter):
        if name == '__next__':
            return b_next(I, [recv], {}, st, fr, node)
        if name == '__iter__':
            return [(st, recv)]
        if name in ('send', 'close', 'throw'):
            I.ev('call', '.' + name, st, node, fr, recv=recv, name=name, args=tuple(args))
            return b_next(I, [recv], {}, st, fr, node) if name == 'send' else [(st, NONE)]
    I.unknown.add('method %s of %s' % (name, type(h).__name__))
    st.n += 1
    return [(st, Sym(('call', name, st.n)))]


def const_method(I, recv, name, args, kwargs, st, fr, node):
    vals = []
    ok = True
    for a in args:
        if isinstance(a, Const):
            vals.append(a.v)
        elif isinstance(a, TupleV) and all(isinstance(x, Const) for x in a.items):
            vals.append(tuple(x.v for x in a.items))
        else:
            items = I.seq_items(st, a) if isinstance(a, V) else None
            if items is not None and all(isinstance(x, Const) for x in items):
                vals.append([x.v for x in items])
            else:
                ok = False
    kv = {}
    for k, v in kwargs.items():
        if k is not None and isinstance(v, Const):
            kv[k] = v.v
        else:
            ok = False
    if name == 'join' and isinstance(recv.v, (str, bytes)) and args:
        out = []
        for s, items in I.iter_values(st, args[0], fr, node):
            if isinstance(items, Raise):
                out.append((s, items))
                continue
            bad = [x for x in items if isinstance(x, Const) and not isinstance(x.v, type(recv.v))]
            if bad:
                out.append((s, I.raise_(s, 'builtins.TypeError', node, fr,
                                        'join: expected str instance')))
                continue
            if isinstance(recv.v, bytes):
                if all(isinstance(x, Const) for x in items):
                    out.append((s, Const(recv.v.join([x.v for x in items]))))
                else:
                    out.append((s, Sym(('bjoin', recv.v) + tuple(x.key for x in items))))
                continue
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(recv)
                parts.append(x)
            out.append((s, I.concat(parts)))
        return out
    if name == 'format' and isinstance(recv.v, str):
        # keep the pieces visible: '{}/{}'.format(a, b) -> concatenation
        import string
        parts = []
        auto = 0
        simple = None not in kwargs and not any(isinstance(a, StarA) for a in args)
        if simple:
            try:
                for lit, field, spec, conv in string.Formatter().parse(recv.v):
                    if lit:
                        parts.append(Const(lit))
                    if field is None:
                        continue
                    if field == '':
                        field = str(auto)
                        auto += 1
                    root = field.split('.')[0].split('[')[0]
                    if '[' in field or '{' in spec or (root == '' and root != field):
                        simple = False
                        break
                    x = args[int(root)] if root.isdigit() else kwargs[root]
                    if spec and (not isinstance(x, Const) or root != field):
                        simple = False
                        break
                    parts.append((x, conv, field.split('.')[1:], spec))
            except IndexError as e:
                return raises_const(I, st, e, fr, node)
            except KeyError as e:
                return raises_const(I, st, e, fr, node)
            except ValueError as e:
                return raises_const(I, st, e, fr, node)
        if simple:
            outs = [(st, [])]
            for p in parts:
                nxt = []
                for s, l in outs:
                    if isinstance(l, Raise):
                        nxt.append((s, l))
                    elif isinstance(p, Const):
                        nxt.append((s, l + [p]))
                    else:
                        x, conv, path, spec = p
                        if not isinstance(x, V):
                            x = Sym(('star',))
                        if spec and conv is None:
                            try:
                                nxt.append((s, l + [Const(format(x.v, spec))]))
                            except Exception as e:
                                nxt.extend(raises_const(I, s, e, fr, node))
                            continue
                        xs = [(s, x)]
                        for an in path:
                            xs = [z for s1, v1 in xs for z in (
                                [(s1, v1)] if isinstance(v1, Raise) else
                                I.load_attr(s1, v1, an, fr, node))]
                        if path:
                            for s1, v1 in xs:
                                rs = [(s1, v1)] if isinstance(v1, Raise) else b_repr(
                                    I, [v1], {}, s1, fr, node) if conv == 'r' else I.to_str(
                                        s1, v1, fr, node)
                                for s2, sv in rs:
                                    nxt.append((s2, sv if isinstance(sv, Raise) else l + [sv]))
                            continue
                        rs = b_repr(I, [x], {}, s, fr, node) if conv == 'r' else I.to_str(s, x, fr, node)
                        for s2, sv in rs:
                            nxt.append((s2, sv if isinstance(sv, Raise) else l + [sv]))
                outs = nxt
            return [(s, l if isinstance(l, Raise) else I.concat(l)) for s, l in outs]
        return [(st, Sym(('fmt', recv.key) + tuple(a.key for a in args), types=STR))]
    if ok:
        try:
            r = getattr(recv.v, name)(*vals, **kv)
        except Exception as e:
            return raises_const(I, st, e, fr, node)
        return [(st, from_py(st, r))]
    if name in ('startswith', 'endswith', 'find', 'replace', 'split', 'strip', 'rstrip', 'lstrip',
                'partition', 'encode', 'count', 'index', 'splitlines', 'rfind', 'rsplit', 'decode'):
        return [(st, Sym(('pure', '.' + name, recv.key) + tuple(a.key for a in args)))]
    I.unknown.add('%s.%s on a constant' % (type(recv.v).__name__, name))
    st.n += 1
    return [(st, Sym(('call', name, st.n)))]


def list_method(I, ref, h, items, name, args, kwargs, st, fr, node):
    kind = h.kind if h is not None else 'tuple'
    oid = ref.oid if isinstance(ref, Ref) else None

    def put(s, l):
        n = s.meta.get(('maxlen', oid))
        if n is not None and len(l) > n and not any(isinstance(x, Seg) for x in l):
            l = l[:n] if name.endswith('left') else l[len(l) - n:]
        s.heap[oid] = HList(l, kind)
    if name == 'rotate' and kind == 'deque' and not any(isinstance(x, Seg) for x in items):
        n = args[0].v if args and isinstance(args[0], Const) else 1 if not args else None
        if n is not None:
            k = -n % len(items) if items else 0
            put(st, items[k:] + items[:k])
            return [(st, NONE)]
    if name in ('append', 'add', 'appendleft'):
        I.ev('call', '.' + name, st, node, fr, recv=ref, name=name, args=tuple(args))
        if name == 'add':
            put(st, I.dedup(items + [args[0]]))
        elif name == 'append':
            put(st, items + [args[0]])
        else:
            put(st, [args[0]] + items)
        return [(st, NONE)]
    if name in ('extend', 'update', 'extendleft', 'union', '__iadd__', 'difference_update', 'difference',
                'intersection', 'intersection_update', 'symmetric_difference_update',
                'symmetric_difference'):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                for s2, segs in I.segments(s, a, fr, node):
                    nxt.append((s2, segs if isinstance(segs, Raise) else acc + list(segs)))
            outs = nxt
        res = []
        for s, segs in outs:
            if isinstance(segs, Raise):
                res.append((s, segs))
                continue
            I.ev('call', '.' + name, s, node, fr, recv=ref, name=name, args=tuple(args))
            cur = list(s.heap[oid].items) if oid else items
            if name in ('extend', '__iadd__'):
                new = cur + segs
            elif name == 'extendleft':
                new = segs[::-1] + cur
            elif name in ('update', 'union'):
                new = I.dedup(cur + segs)
            elif name in ('difference', 'difference_update'):
                ks = {x.key for x in segs}
                new = [x for x in cur if x.key not in ks]
            elif name.startswith('symmetric_difference'):
                ks = {x.key for x in segs}
                kc = {x.key for x in cur}
                new = [x for x in cur if x.key not in ks] + [x for x in segs if x.key not in kc]
            else:
                ks = {x.key for x in segs}
                new = [x for x in cur if x.key in ks]
            if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
                res.append((s, s.alloc(HList(new, kind))))
            else:
                put(s, new)
                res.append((s, NONE))
        return res
    if name == 'insert':
        I.ev('call', '.insert', st, node, fr, recv=ref, name=name, args=tuple(args))
        if isinstance(args[0], Const) and (args[0].v == 0 or not any(isinstance(x, Seg) for x in items)):
            items.insert(args[0].v, args[1])
            put(st, items)
            return [(st, NONE)]
        items.insert(0, args[1])
        I.unknown.add('list.insert at unknown index')
        put(st, items)
        return [(st, NONE)]
    if name in ('pop', 'popleft'):
        out = []
        if kind == 'set':
            for s, l in I.materialise(st, items):
                if not l:
                    out.append((s, I.raise_(s, 'builtins.KeyError', node, fr, 'pop from empty set')))
                else:
                    put(s, l[1:])
                    out.append((s, l[0]))
            return out
        for s, l in I.materialise(st, items):
            idx = 0 if name == 'popleft' else -1
            if args and isinstance(args[0], Const):
                idx = args[0].v
            I.ev('call', '.' + name, s, node, fr, recv=ref, name=name, args=tuple(args))
            try:
                v = l.pop(idx)
            except IndexError as e:
                out.append((s, I.raise_(s, 'builtins.IndexError', node, fr, str(e))))
                continue
            put(s, l)
            out.append((s, v))
        return out
    if name in ('remove', 'discard', 'index', 'count', '__contains__'):
        I.ev('call', '.' + name, st, node, fr, recv=ref, name=name, args=tuple(args))
        out = []
        for s0, l in I.materialise(st, items):
            if name == 'count':
                outs = [(s0, 0)]
                for x in l:
                    nxt = []
                    for s, n in outs:
                        for s2, r in I.eq_(x, args[0], s, fr, node):
                            for s3, b in I.truth(s2, r, fr):
                                nxt.append((s3, n + (b is True)))
                    outs = nxt
                out.extend((s, Const(n)) for s, n in outs)
                continue
            pend = [s0]
            for i, x in enumerate(l):
                nxt = []
                for s in pend:
                    for s2, r in I.eq_(x, args[0], s, fr, node):
                        for s3, b in I.truth(s2, r, fr):
                            if b is True:
                                if name in ('remove', 'discard'):
                                    put(s3, l[:i] + l[i + 1:])
                                    out.append((s3, NONE))
                                elif name == 'index':
                                    out.append((s3, Const(i)))
                                else:
                                    out.append((s3, TRUE))
                            else:
                                nxt.append(s3)
                pend = nxt
            for s in pend:
                if name == 'discard':
                    out.append((s, NONE))
                elif name == '__contains__':
                    out.append((s, FALSE))
                else:
                    out.append((s, I.raise_(
                        s, 'builtins.KeyError' if kind == 'set' else 'builtins.ValueError', node, fr,
                        'not in list')))
        return out
    if name == 'clear':
        I.ev('call', '.clear', st, node, fr, recv=ref, name=name)
        put(st, [])
        return [(st, NONE)]
    if name == 'copy':
        return [(st, st.alloc(HList(items, kind)))]
    if name == 'reverse':
        out = []
        for s, l in I.materialise(st, items):
            put(s, l[::-1])
            out.append((s, NONE))
        return out
    if name == 'sort':
        r = b_sorted(I, [ref], kwargs, st, fr, node)
        out = []
        for s, l in r:
            if isinstance(l, Raise):
                out.append((s, l))
            else:
                put(s, s.heap[l.oid].items)
                out.append((s, NONE))
        return out
    if name == '__iter__':
        return b_iter(I, [ref], {}, st, fr, node)
    if name == '__len__':
        return b_len(I, [ref], {}, st, fr, node)
    if name == '__getitem__':
        return I.load_item(st, ref, args[0], fr, node)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        other = I.seq_items(st, args[0])
        if other is not None and not any(isinstance(x, Seg) for x in list(items) + list(other)):
            ka, kb = {x.key for x in items}, {x.key for x in other}
            return [(st, boolc({'issubset': ka <= kb, 'issuperset': ka >= kb,
                                'isdisjoint': not (ka & kb)}[name]))]
    I.unknown.add('list method %s' % name)
    st.n += 1
    return [(st, Sym(('call', 'list.' + name, st.n)))]


def dict_method(I, ref, h, name, args, kwargs, st, fr, node):
    live = [(k, v) for k, v in h.entries if v is not DELETED]
    if name == 'move_to_end' and h.base is None:
        last = args[1] if len(args) > 1 else kwargs.get('last', TRUE)
        hit = [(k, v) for k, v in live if k.key == args[0].key]
        rest = [(k, v) for k, v in live if k.key != args[0].key]
        if hit and isinstance(last, Const):
            st.heap[ref.oid] = HDict(rest + hit if last.v else hit + rest, None, h.factory, h.kind)
            return [(st, NONE)]
    if name == 'get':
        out = []
        for s, f, v in I.dict_find(st, ref, args[0], fr, node):
            out.append((s, v if f else (args[1] if len(args) > 1 else kwargs.get('default', NONE))))
        return out
    if name == '__contains__':
        return [(s, boolc(f)) for s, f, v in I.dict_find(st, ref, args[0], fr, node)]
    if name == '__getitem__':
        return I.load_item(st, ref, args[0], fr, node)
    if name == '__setitem__':
        return [(s, NONE if o[0] == 'normal' else Raise(o[1]))
                for s, o in I.store_item(st, ref, args[0], args[1], fr, node)]
    if name == '__delitem__':
        return [(s, NONE if o[0] == 'normal' else Raise(o[1]))
                for s, o in I.del_item(st, ref, args[0], fr, node)]
    if name == 'setdefault':
        out = []
        for s, f, v in I.dict_find(st, ref, args[0], fr, node):
            if f:
                out.append((s, v))
            else:
                d = args[1] if len(args) > 1 else NONE
                I.ev('setitem', 'setitem', s, node, fr, recv=ref, args=(args[0], d))
                I.dict_set(s, ref, args[0], d)
                out.append((s, d))
        return out
    if name == 'pop':
        out = []
        for s, f, v in I.dict_find(st, ref, args[0], fr, node):
            if f:
                I.ev('delitem', 'delitem', s, node, fr, recv=ref, args=(args[0],))
                I.dict_del(s, ref, args[0])
                out.append((s, v))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                out.append((s, I.raise_(s, 'builtins.KeyError', node, fr)))
        return out
    if name == 'popitem':
        if live:
            k, v = live[-1]
            I.dict_del(st, ref, k)
            return [(st, TupleV([k, v]))]
        if h.base is None:
            return [(st, I.raise_(st, 'builtins.KeyError', node, fr))]
    if name == 'clear':
        I.ev('call', '.clear', st, node, fr, recv=ref, name=name)
        st.heap[ref.oid] = HDict((), None, h.factory, h.kind)
        return [(st, NONE)]
    if name == 'copy':
        return [(st, st.alloc(HDict(h.entries, h.base, h.factory, 'dict')))]
    if name == 'update':
        I.ev('call', '.update', st, node, fr, recv=ref, name=name, args=tuple(args))
        outs = [(st, NONE)]
        if args:
            a = args[0]
            if isinstance(a, Ref) and isinstance(st.heap[a.oid], HDict):
                o = st.heap[a.oid]
                merge_dict(I, st, ref, o)
            elif isinstance(a, Sym):
                merge_dict(I, st, ref, HDict((), a.key))
            else:
                outs = []
                for s, d in b_dict(I, [a], {}, st, fr, node):
                    if isinstance(d, Raise):
                        outs.append((s, d))
                    else:
                        merge_dict(I, s, ref, s.heap[d.oid])
                        outs.append((s, NONE))
        for s, r in outs:
            if not isinstance(r, Raise):
                for k, v in kwargs.items():
                    if k is not None:
                        I.dict_set(s, ref, Const(k), v)
        return outs
    if name in ('items', 'keys', 'values'):
        l = []
        if h.base is not None:
            l.append(Seg(Sym((name, h.base) + tuple(k.key for k, v in h.entries if v is DELETED))))
        for k, v in live:
            l.append(TupleV([k, v]) if name == 'items' else k if name == 'keys' else v)
        view = st.alloc(HList(l, 'list'), 'view')
        st.meta[('view', view.oid)] = (name, ref.oid)
        return [(st, view)]
    if name == '__iter__':
        return b_iter(I, [ref], {}, st, fr, node)
    if name == '__len__':
        return b_len(I, [ref], {}, st, fr, node)
    I.unknown.add('dict method %s' % name)
    st.n += 1
    return [(st, Sym(('call', 'dict.' + name, st.n)))]


def merge_dict(I, st, ref, o):
    h = st.heap[ref.oid]
    if o.base is not None:
        if not h.entries and h.base is None:
            st.heap[ref.oid] = HDict(o.entries, o.base, h.factory, h.kind)
            return
        if h.base == o.base:
            # same unknown rest; entries of self stay unless overridden below / by the rest
            keep = [(k, v) for k, v in h.entries]
            st.heap[ref.oid] = HDict(keep, ('merge', h.base, tuple((k.key, v.key) for k, v in keep),
                                            o.base), h.factory, h.kind)
        else:
            st.heap[ref.oid] = HDict((), ('merge', h.base, tuple((k.key, v.key) for k, v in h.entries),
                                          o.base), h.factory, h.kind)
    for k, v in o.entries:
        if v is not DELETED:
            I.dict_set(st, ref, k, v)
