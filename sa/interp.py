"""
Path-sensitive abstract interpreter over the syntax tree (trace-partitioning dataflow).

Nothing of /repo is imported or run.  A function body is abstractly executed over terms: unknown
inputs stay unknown (``Sym``), allocations are sites (``Ref`` into an abstract heap), in-repo calls
are inlined, calls that leave the repository become events.  Where a branch depends on an unknown,
both successors are kept, and the predicate is recorded as a fact of that trace partition, so that
a later test of the same predicate agrees with it.  No solver is involved: facts are closed under a
handful of syntactic implications (``decide``).
"""
import ast
import re
import builtins
import signal as _signal
import sys
import time

from .model import PRELUDE, ClassInfo, ModuleInfo, ext_is_sub, norm_ext
from .values import (BREAK, CONT, NORMAL, BoundV, boolc, BuiltinM, ClassV, Const, CoroV, CtxV, DELETED, Ev, ExtV, FALSE,
                     FuncV, GenV, HDict, HEnv, HIter, HList, HObj, ModV, NONE, PartialV, Raise, Ref, Seg,
                     StarA, State, SuperV, Sym, TRUE, TupleV, V)

GENERICS = {'typing.List': 'builtins.list', 'typing.Dict': 'builtins.dict',
            'typing.Tuple': 'builtins.tuple', 'typing.Set': 'builtins.set',
            'typing.Union': 'typing.Union', 'typing.Optional': 'typing.Union',
            'typing.Sequence': 'collections.abc.Sequence', 'typing.Type': 'builtins.type',
            'typing.Iterable': 'collections.abc.Iterable',
            'typing.Callable': 'collections.abc.Callable', 'builtins.list': 'builtins.list',
            'builtins.dict': 'builtins.dict', 'builtins.tuple': 'builtins.tuple',
            'builtins.set': 'builtins.set'}

sys.setrecursionlimit(200000)


# calls in which others may act, or that see what others did
OTHERS = re.compile(r'sleep|wait|select|acquire|join|recv|read|poll|get_nowait|is_set|\.get$|time|random|urandom|yield')


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass



BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
    ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
    ast.RShift: '>>', ast.MatMult: '@',
}

PURE_METHODS = {
    'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'startswith',
    'endswith', 'format', 'join', 'encode', 'decode', 'replace', 'find', 'rfind', 'isdigit',
    'partition', 'rpartition', 'title', 'capitalize', 'swapcase', 'zfill', 'casefold', 'isspace',
    'expanduser', 'resolve', 'as_posix', 'ljust', 'rjust', 'center', 'removeprefix',
    'removesuffix', 'items', 'keys', 'values',
}

STR_M = {m for m in dir(str) if not m.startswith('_')}

# (receiver, slot) keys at which ``Frame.exc`` etc. live
MAXDEPTH = 60


def is_class_name(name):
    if name.startswith('builtins.'):
        return isinstance(getattr(builtins, name[9:], None), type)
    return name.split('.')[-1][:1].isupper()


PLAIN_DECORATORS = {
    'staticmethod', 'classmethod', 'property', 'cached_property', 'abstractmethod', 'contextmanager',
    'asynccontextmanager', 'overload', 'override', 'final', 'setter', 'getter', 'deleter', 'wraps',
    'hookimpl', 'fixture', 'singledispatchmethod'}


class Frame:
    __slots__ = ('qual', 'mod', 'lexcls', 'env', 'finfo', 'selfv', 'gen', 'yieldh', 'depth', 'up',
                 'node', 'callline')

    def __init__(self, qual, mod, lexcls, env, finfo, selfv, up, node=None):
        self.qual, self.mod, self.lexcls, self.env = qual, mod, lexcls, env
        self.finfo, self.selfv, self.up, self.node = finfo, selfv, up, node
        self.gen = None
        self.yieldh = None
        self.depth = (up.depth + 1) if up else 0
        self.callline = 0

    def chain(self):
        f = self
        while f:
            yield f
            f = f.up


class Call:
    """A call about to be made (given to hooks)."""

    __slots__ = ('target', 'fn', 'recv', 'name', 'args', 'kwargs', 'node', 'fr',
                 'cont')

    def __init__(self, target, fn, recv, name, args, kwargs, node, fr):
        self.cont = None
        self.target, self.fn, self.recv, self.name = target, fn, recv, name
        self.args, self.kwargs, self.node, self.fr = args, kwargs, node, fr

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None:
            return self.kwargs.get(name)
        return None


BOOLISH = ('is', 'eq', 'lt', 'in', 'isinstance', 'not', 'hasattr', 'callable', 'truthy')


def signum(v):
    """The number of a signal, or a number."""
    if isinstance(v, Const):
        return v.v if type(v.v) is int else None
    if isinstance(v, ExtV) and v.name.startswith('signal.SIG'):
        m = getattr(_signal, v.name[7:], None)
        return int(m) if isinstance(m, _signal.Signals) else None
    return None


PLAIN_BASES = ('object', 'builtins.object', 'typing.Generic', 'abc.ABC', 'typing.Protocol')


class Interp:
    def __init__(self, model, budget=400000, max_paths=6000, unroll=(0, 1), max_while=4):
        self.model = model
        self.budget = budget
        self.max_paths = max_paths
        self.unroll = unroll
        self.max_while = max_while
        self.steps = 0
        self.deadline = None
        self.cut = 0
        self.diverged = []      # (state, loop, frame): loops found to go on for ever
        self.trace_reads = 0
        self.hooks = {}         # target or '.method' -> fn(I, st, call) -> None | [(st, v)]
        self.opaque = set()     # qualnames that are not inlined
        self.raises = []        # fn(call) -> list of exception names it may raise besides returning
        self.await_raises = None
        self.intrinsics = {}    # names available to driver modules
        self.callorigin = {}    # key of an unknown call result -> target
        self.visited = set()    # qualnames of functions abstractly executed
        self.callsites = set()
        self.tokens = 0
        self.unknown = set()    # notes on imprecision
        from . import ext
        self.ext = ext

    # ------------------------------------------------------------------ bookkeeping
    def tick(self, n=1):
        self.steps += n
        if self.deadline and not self.steps & 255 and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        if self.steps > self.budget:
            raise Budget('step budget exhausted')

    def ev(self, kind, target, st, node, fr, **kw):
        e = Ev(kind, target, **kw)
        if fr is not None:
            e.file = fr.mod.path if fr.mod else None
            e.func = fr.qual
            e.stack = tuple(f.qual for f in fr.chain())
        e.line = getattr(node, 'lineno', None)
        e.locks = st.locks
        st.add(e)
        return e

    def fresh(self, st, what, **kw):
        st.n += 1
        return Sym(('call', what, st.n), **kw)

    # ------------------------------------------------------------------ facts
    def assume(self, st, key, val):
        if key[0] == 'not':
            return self.assume(st, key[1], not val)
        st.facts[key] = val

    def decide(self, st, key):
        """Is the predicate known in this partition?"""
        h = key[0]
        if h == 'not':
            r = self.decide(st, key[1])
            return None if r is None else not r
        F = st.facts
        if key in F:
            return F[key]
        if h == 'truthy':
            k = key[1]
            if k[0] in ('is', 'eq', 'lt', 'in', 'isinstance', 'not', 'hasattr', 'callable'):
                return self.decide(st, k)
            for fk, fv in F.items():
                if not fv:
                    continue
                if fk[0] == 'is' and fk[1] == k and fk[2] == NONE.key:
                    return False
                if fk[0] == 'eq' and k in fk[1:]:
                    o = fk[2] if fk[1] == k else fk[1]
                    if o[0] == 'c':
                        return bool(o[2])
        elif h == 'is':
            a, b = key[1], key[2]
            if a == b:
                return True
            if b == NONE.key:
                if a[0] == 'c':
                    return a[2] is None
                if F.get(('truthy', a)):
                    return False
                for fk, fv in F.items():
                    if fv and fk[0] == 'isinstance' and fk[1] == a and fk[2] != 'builtins.NoneType':
                        return False
                    if fv and fk[0] == 'eq' and a in fk[1:]:
                        o = fk[2] if fk[1] == a else fk[1]
                        if o[0] == 'c':
                            return o[2] is None
            else:
                for fk, fv in F.items():
                    if fv and fk[0] == 'is' and fk != key:
                        # a is X  and X distinct object from b
                        for p, q in ((a, b), (b, a)):
                            if p in fk[1:]:
                                o = fk[2] if fk[1] == p else fk[1]
                                if o != q and o[0] in ('r', 'c', 'cls', 'ext') and \
                                        q[0] in ('r', 'c', 'cls', 'ext'):
                                    return False
        elif h == 'eq':
            a, b = key[1], key[2]
            if a == b:
                return True
            if a[0] == 'c' and b[0] == 'c':
                return a[2] == b[2]
            for x, c in ((a, b), (b, a)):
                for fk, fv in F.items():
                    if fk[0] == 'eq' and fv and x in fk[1:]:
                        o = fk[2] if fk[1] == x else fk[1]
                        if o[0] == 'c' and c[0] == 'c' and o[2] != c[2]:
                            return False
                    if fk[0] == 'is' and fv and fk[1] == x and fk[2] == NONE.key and c[0] == 'c':
                        return c[2] is None
                    if fk[0] == 'is' and fv and set(fk[1:]) == {a, b}:
                        return True
                    if fk[0] == 'isinstance' and fv and fk[1] == x and c[0] == 'c' and \
                            fk[2].startswith('builtins.'):
                        T = getattr(builtins, fk[2][9:], None)
                        if isinstance(T, type) and T in (str, bytes, list, dict, tuple) and \
                                not isinstance(c[2], T):
                            return False
                if c[0] == 'c':
                    t = F.get(('truthy', x))
                    if t is not None and bool(c[2]) != t:
                        return False
                    if c[2] is not None and isinstance(c[2], bool) is False:
                        pass
        elif h == 'lt':
            a, b = key[1], key[2]
            if a == b:
                return False
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return a[2] < b[2]
                except TypeError:
                    return None
            if F.get(('lt', b, a)):
                return False
            if F.get(('eq',) + tuple(sorted((a, b), key=repr))):
                return False
            # constants: x < c with x < c' known
            for fk, fv in F.items():
                if fk[0] != 'lt':
                    continue
                try:
                    if fv and fk[1] == a and fk[2][0] == 'c' and b[0] == 'c' and fk[2][2] <= b[2]:
                        return True
                    if fv and fk[2] == b and fk[1][0] == 'c' and a[0] == 'c' and a[2] <= fk[1][2]:
                        return True
                    if fv and fk[2] == a and fk[1][0] == 'c' and b[0] == 'c' and b[2] <= fk[1][2]:
                        return False      # c < a and b<=c  => not a<b
                    if fv and fk[1] == b and fk[2][0] == 'c' and a[0] == 'c' and fk[2][2] <= a[2]:
                        return False      # b < c <= a
                    if not fv and fk[1] == a and fk[2][0] == 'c' and b[0] == 'c' and b[2] <= fk[2][2]:
                        return False      # a >= c >= b
                    if not fv and fk[2] == b and fk[1][0] == 'c' and a[0] == 'c' and fk[1][2] <= a[2]:
                        return False      # c >= b , a >= c
                    if not fv and fk[1] == b and fk[2][0] == 'c' and a[0] == 'c' and a[2] < fk[2][2]:
                        return True       # b >= c > a
                    if not fv and fk[2] == a and fk[1][0] == 'c' and b[0] == 'c' and fk[1][2] < b[2]:
                        return True       # a <= c < b
                except TypeError:
                    pass
        elif h == 'isinstance':
            k, c = key[1], key[2]
            if F.get(('is', k, NONE.key)) and c not in ('builtins.NoneType', 'builtins.object'):
                return False
            for fk, fv in F.items():
                if fk[0] == 'isinstance' and fk[1] == k:
                    if fv and self.cls_sub(fk[2], c):
                        return True
                    if not fv and self.cls_sub(c, fk[2]):
                        return False
                    if fv and self.cls_disjoint(fk[2], c):
                        return False
                if fk[0] == 'eq' and fv and k in fk[1:]:
                    o = fk[2] if fk[1] == k else fk[1]
                    if o[0] == 'c' and c.startswith('builtins.'):
                        T = getattr(builtins, c[9:], None)
                        if isinstance(T, type):
                            return isinstance(o[2], T)
        return None

    def cls_sub(self, a, b):
        a, b = norm_ext(a), norm_ext(b)
        if a == b:
            return True
        ci = self.class_by_qual(a)
        if ci is not None:
            return ci.is_sub(b)
        return ext_is_sub(a, b)

    def cls_disjoint(self, a, b):
        basic = ('builtins.str', 'builtins.bytes', 'builtins.list', 'builtins.dict',
                 'builtins.tuple', 'builtins.set', 'builtins.float', 'builtins.bool',
                 'builtins.int', 'builtins.NoneType')
        a, b = norm_ext(a), norm_ext(b)
        if a in basic and b in basic:
            return not (self.cls_sub(a, b) or self.cls_sub(b, a))
        A, B = self.class_by_qual(a), self.class_by_qual(b)
        if (a in basic and B is not None and not B.ext_bases()) or \
                (b in basic and A is not None and not A.ext_bases()):
            return True
        return False

    def class_by_qual(self, q):
        if q in self.model.local_classes:
            return self.model.local_classes[q]
        r = self.model.find(q) if '.' in q else None
        return r if isinstance(r, ClassInfo) else None

    def branch(self, st, key):
        """Split on an atomic predicate."""
        while key[0] == 'not':
            return [(s, not b) for s, b in self.branch(st, key[1])]
        if key[0] == 'truthy' and key[1][0] in ('is', 'eq', 'lt', 'in', 'isinstance', 'not', 'hasattr'):
            return self.branch(st, key[1])
        d = self.decide(st, key)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        self.assume(st, key, True)
        self.assume(s2, key, False)
        return [(st, True), (s2, False)]

    def truth(self, st, v, fr, node=None):
        """-> [(st, bool | Raise)]"""
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Sym):
            return self.branch(st, ('truthy', v.key))
        if isinstance(v, TupleV):
            return self.seq_truth(st, v.items)
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if isinstance(h, HList):
                return self.seq_truth(st, h.items)
            if isinstance(h, HDict):
                live = [e for e in h.entries if e[1] is not DELETED]
                if live:
                    return [(st, True)]
                if h.base is None:
                    return [(st, False)]
                return self.branch(st, ('truthy', h.base))
            if isinstance(h, HObj) and isinstance(h.cls, ClassInfo):
                for m in ('__bool__', '__len__'):
                    f = self.find_member(h.cls, m)
                    if f is not None:
                        out = []
                        for s, r in self.call(self.load_attr_on(st, v, m, fr), [], {}, st, fr, node):
                            if isinstance(r, Raise):
                                out.append((s, r))
                            else:
                                out.extend(self.truth(s, r, fr, node))
                        return out
            return [(st, True)]
        return [(st, True)]

    def seq_truth(self, st, items):
        if not items:
            return [(st, False)]
        if any(not isinstance(i, Seg) for i in items):
            return [(st, True)]
        return [(s, len(it) > 0) for s, it in self.materialise(st, items)]

    def materialise(self, st, items):
        """Expand unknown segments into bounded numbers of generic elements: [(st, [V])]."""
        outs = [(st, [])]
        for i in items:
            if not isinstance(i, Seg):
                for _, l in outs:
                    l.append(i)
                continue
            nxt = []
            for s, l in outs:
                for s2, els in self.expand(s, i.src):
                    nxt.append((s2, l + els))
            outs = nxt
        return outs

    def expand(self, st, src):
        """Unknown iterable -> [(st, elements)] for each unrolled length."""
        k = ('iterlen', src.key)
        if k in st.facts:
            return [(st, self.elems(src, st.facts[k]))]
        lens = list(self.unroll)
        t = self.decide(st, ('truthy', src.key))
        if t is True:
            lens = [n for n in lens if n > 0] or [1]
        elif t is False:
            lens = [0]
        out = []
        for i, n in enumerate(lens):
            s = st if i == len(lens) - 1 else st.copy()
            s.facts[k] = n
            out.append((s, self.elems(src, n)))
        return out

    def elems(self, src, n):
        return [Sym(('elem', src.key, i)) for i in range(n)]

    # ------------------------------------------------------------------ environments
    def new_env(self, st, parent, finfo, vars=None):
        return st.alloc(HEnv(vars or {}, parent, finfo), 'e').oid

    def env_set(self, st, oid, name, v):
        e = st.heap[oid]
        nv = dict(e.vars)
        nv[name] = v
        st.heap[oid] = HEnv(nv, e.parent, e.finfo)

    def set_name(self, st, fr, name, v):
        name = self.mangle(fr, name)
        oid = fr.env
        e = st.heap[oid]
        # comprehension scopes delegate (walrus) handled by caller
        fi = e.finfo
        if fi is not None and name in fi.globals:
            self.mod_set(st, fr.mod, name, v)
            return
        if fi is not None and name in fi.nonlocals:
            p = e.parent
            while p is not None:
                pe = st.heap[p]
                if name in pe.vars or (pe.finfo is not None and name in pe.finfo.locals):
                    self.env_set(st, p, name, v)
                    return
                p = pe.parent
            return
        self.env_set(st, oid, name, v)

    def mod_set(self, st, mod, name, v):
        oid = 'm:' + mod.name
        e = st.heap.get(oid)
        nv = dict(e.vars) if e else {}
        nv[name] = v
        st.heap[oid] = HEnv(nv, None, None)

    def lookup(self, st, fr, name, node):
        name = self.mangle(fr, name)
        p = fr.env
        while p is not None:
            e = st.heap[p]
            if name in e.vars:
                return [(st, e.vars[name])]
            if e.finfo is not None and name in e.finfo.locals:
                return [(st, self.raise_(st, 'builtins.UnboundLocalError', node, fr,
                                         'local variable %r referenced before assignment' % name))]
            p = e.parent
        return self.mod_lookup(st, fr.mod, name, fr, node)

    def mod_lookup(self, st, mod, name, fr, node, seen=()):
        oid = 'm:' + mod.name
        e = st.heap.get(oid)
        if e is not None and name in e.vars:
            return [(st, e.vars[name])]
        if name == '__name__':
            return [(st, Const(mod.name))]
        if name == '__file__':
            return [(st, Sym(('s', mod.name + '.__file__'), types=frozenset(['builtins.str'])))]
        if name == '__class__' and fr is not None and fr.lexcls is not None:
            return [(st, ClassV(fr.lexcls))]
        if (mod.name, name) in seen:
            return [(st, Sym(('s', mod.name + '.' + name)))]
        seen = seen + ((mod.name, name),)
        b = mod.bindings.get(name)
        if not b:
            for star in mod.bindings.get('*', []):
                m = self.model.modules.get(star[1])
                if m and self.model.lookup_static(m, name) is not None:
                    return self.mod_lookup(st, m, name, fr, node, seen)
            if mod.is_pkg and mod.name + '.' + name in self.model.modules:
                return [(st, ModV(self.model.modules[mod.name + '.' + name]))]
            if hasattr(builtins, name):
                return [(st, self.extval('builtins.' + name))]
            if mod.name.startswith('drv.'):
                if name not in self.intrinsics and name != 'DEFAULT':
                    raise Unsupported('driver name %s' % name)
                return [(st, ExtV('sa_env.' + name))]
            return [(st, self.raise_(st, 'builtins.NameError', node, fr,
                                     'name %r is not defined' % name))]
        b = b[-1]
        if isinstance(b, ast.ClassDef):
            return [(st, ClassV(self.model.cls(mod, b)))]
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return self.make_func(st, b, mod, None, None, mod.name + '.' + b.name, fr)
        if b[0] == 'import':
            if b[1] in self.model.modules:
                return [(st, ModV(self.model.modules[b[1]]))]
            return [(st, self.extval(b[1]))]
        if b[0] == 'from':
            return [(st, self.import_from(st, b[1], b[2], fr, node, seen))] if not isinstance(
                self.model.modules.get(b[1]), ModuleInfo) else self._from_mod(
                    st, b[1], b[2], fr, node, seen)
        if b[0] == 'assign':
            mfr = self.mod_frame(st, mod)
            out = []
            for s, v in self.ev_(b[1].value, st, mfr):
                if isinstance(v, Raise):
                    out.append((s, Sym(('s', mod.name + '.' + name))))
                    continue
                if b[2] is not None:
                    v = v.items[b[2]] if isinstance(v, TupleV) and b[2] < len(v.items) else \
                        Sym(('s', mod.name + '.' + name))
                self.mod_set(s, mod, name, v)
                out.append((s, v))
            return out
        raise Unsupported('binding %r' % (b,))

    def _from_mod(self, st, base, nm, fr, node, seen):
        m = self.model.modules[base]
        r = self.model.lookup_static(m, nm)
        e = st.heap.get('m:' + base)
        if r is None and not (e is not None and nm in e.vars):
            if base + '.' + nm in self.model.modules:
                return [(st, ModV(self.model.modules[base + '.' + nm]))]
            return [(st, self.raise_(st, 'builtins.ImportError', node, fr,
                                     'cannot import %r from %r' % (nm, base)))]
        if isinstance(r, ModuleInfo) and not (e is not None and nm in e.vars):
            return [(st, ModV(r))]
        return self.mod_lookup(st, m, nm, fr, node, seen)

    def import_from(self, st, base, nm, fr, node, seen=()):
        if base + '.' + nm in self.model.modules:
            return ModV(self.model.modules[base + '.' + nm])
        return self.extval(norm_ext(base + '.' + nm))

    def extval(self, name):
        name = norm_ext(name)
        if name in PRELUDE and 'drv.prelude' in self.model.modules:
            mod = self.model.modules['drv.prelude']
            b = mod.bindings.get(PRELUDE[name])[-1]
            if isinstance(b, ast.ClassDef):
                return ClassV(self.model.cls(mod, b))
            return FuncV(b, mod, None, None, mod.name + '.' + b.name)
        c = self.ext.CONSTS.get(name)
        if c is not None:
            return c
        if name in self.ext.STATIC_REFS:
            return Ref(self.ext.STATIC_REFS[name])
        return ExtV(name)

    def mod_frame(self, st, mod):
        oid = 'mf:' + mod.name
        if oid not in st.heap:
            st.heap[oid] = HEnv({}, None, None)
        return Frame(mod.name + '.<module>', mod, None, oid, None, None, None)

    def mangle(self, fr, name):
        if fr.lexcls is not None and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (fr.lexcls.name.lstrip('_'), name)
        return name

    # ------------------------------------------------------------------ functions & decorators
    def deco_names(self, node):
        out = []
        for d in getattr(node, 'decorator_list', []):
            e = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(e))
        return out

    def make_func(self, st, node, mod, lexcls, env, qual, fr):
        """Function object for a def, with decorators applied: [(st, v)]."""
        ds = [d for d in node.decorator_list]
        sn = self.fn_serial(st, fr) if env is not None else None
        f = FuncV(node, mod, lexcls, env, qual, False, sn)
        out = self.with_defaults(st, f, fr) if env is not None and fr is not None else [(st, f)]
        dfr = fr if (fr is not None and env is not None) else None
        for d in reversed(ds):
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if nm.split('.')[-1] in ('contextmanager', 'asynccontextmanager'):
                out = [(s, v if isinstance(v, Raise) else FuncV(node, mod, lexcls, env, qual, True, sn)) for s, v in out]
                continue
            if nm in ('staticmethod', 'classmethod', 'property', 'abc.abstractmethod', 'overload',
                      'functools.wraps', 'wraps') or nm.startswith('expose_') or \
                    nm.endswith(('.setter', '.overload')) or nm.endswith(
                        ('.hookimpl', '.fixture')) and 'pytest' not in self.model.modules:
                continue
            if nm.endswith(('.hookimpl', '.fixture')):
                out = self.decorated_once(out, d, mod) if env is None else out
                continue
            r = self.model.static_resolve(mod, d.func if isinstance(d, ast.Call) else d)
            if isinstance(r, tuple) and r[0] == 'func' and env is None:
                nxt = []
                for s, v in out:
                    dfr = self.mod_frame(s, mod)
                    for s2, dv in self.ev_(d, s, dfr):
                        if isinstance(dv, Raise):
                            nxt.append((s2, v))
                        else:
                            nxt.extend(self.call(dv, [v], {}, s2, dfr, d))
                out = nxt
        return out

    def decorated_once(self, outs, d, mod):
        """The function of a module, decorated with what has effects: done the first time only."""
        out = []
        for s, v in outs:
            k = ('decorated', v.key, ast.dump(d))
            if k in s.heap:
                out.append((s, s.heap[k]))
                continue
            dfr = self.mod_frame(s, mod)
            for s2, dv in self.ev_(d, s, dfr):
                for s3, r in [(s2, dv)] if isinstance(dv, Raise) else self.call(dv, [v], {}, s2, dfr, d):
                    if not isinstance(r, Raise):
                        s3.heap[k] = r
                    out.append((s3, r))
        return out

    def find_member(self, ci, name):
        for c in ci.mro:
            if isinstance(c, ClassInfo) and name in c.members:
                return (c, c.members[name])
        return None

    # ------------------------------------------------------------------ exceptions
    def make_exc(self, st, cls, args=()):
        return st.alloc(HObj(cls, {'args': TupleV(args)}), 'x')

    def raise_(self, st, clsname, node, fr, msg=''):
        if clsname == 'builtins.AttributeError' and isinstance(node, ast.Attribute) and \
                node.attr.startswith('_') and fr is not None and fr.mod.name.startswith('drv.'):
            # a driver reaches for a private name which is gone: nothing is decided
            raise Unsupported('the private name %s is gone' % node.attr)
        x = self.make_exc(st, clsname, [Const(msg)] if msg else [])
        e = self.ev('raise', clsname, st, node, fr, data=msg, result=x)
        return Raise(x, node)

    def exc_name(self, st, exc):
        if isinstance(exc, Ref):
            h = st.heap[exc.oid]
            if isinstance(h, HObj):
                return h.cname
        if isinstance(exc, ClassV):
            return exc.ci.qual
        if isinstance(exc, ExtV):
            return exc.name
        return None

    def exc_match(self, st, exc, tv):
        """-> [(st, bool)]: does the raised value match handler type value tv?"""
        if isinstance(tv, TupleV):
            outs, pend = [], [st]
            for t in tv.items:
                nxt = []
                for s in pend:
                    for s2, b in self.exc_match(s, exc, t):
                        if b:
                            outs.append((s2, True))
                        else:
                            nxt.append(s2)
                pend = nxt
            return outs + [(s, False) for s in pend]
        tn = tv.ci.qual if isinstance(tv, ClassV) else tv.name if isinstance(tv, ExtV) else None
        if tn is None:
            return self.branch(st, ('excmatch', exc.key, tv.key))
        tn = norm_ext(tn)
        en = self.exc_name(st, exc)
        if en is None:
            return self.branch(st, ('excmatch', exc.key, tn))
        generic = False
        h = st.heap.get(exc.oid) if isinstance(exc, Ref) else None
        if h is not None and 'generic' in h.attrs:
            generic = True
        if self.cls_sub(en, tn):
            return [(st, True)]
        if generic and self.cls_sub(tn, en):
            return self.branch(st, ('excmatch', exc.key, tn))
        if not self.ext_known(en) or not self.ext_known(tn):
            if self.class_by_qual(en) is None and self.class_by_qual(tn) is None and \
                    not en.startswith('builtins.'):
                return self.branch(st, ('excmatch', exc.key, tn))
        return [(st, False)]

    def ext_known(self, n):
        from .model import EXT_BASES
        return n.startswith('builtins.') or n in EXT_BASES or self.class_by_qual(n) is not None

    # ------------------------------------------------------------------ statements
    def ex(self, stmts, st, fr):
        """Execute a list of statements: [(st, outcome)]."""
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for x2, o in self.stmt(s, x, fr):
                    if o is NORMAL:
                        nxt.append(x2)
                    else:
                        done.append((x2, o))
            live = nxt
            if len(live) + len(done) > self.max_paths:
                raise Budget('too many paths in %s' % fr.qual)
            if not live:
                break
        return [(x, NORMAL) for x in live] + done

    def stmt(self, n, st, fr):
        self.tick()
        m = getattr(self, 's_' + n.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%s' % (n.__class__.__name__, fr.mod.path, n.lineno))
        return m(n, st, fr)

    def on(self, results, f):
        """Bind for statements: raises become outcomes."""
        out = []
        for s, v in results:
            if isinstance(v, Raise):
                out.append((s, ('raise', v.exc)))
            else:
                out.extend(f(s, v))
        return out

    def bind(self, results, f):
        out = []
        for s, v in results:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def s_Pass(self, n, st, fr):
        return [(st, NORMAL)]

    def s_Global(self, n, st, fr):
        return [(st, NORMAL)]

    s_Nonlocal = s_Global

    def s_Expr(self, n, st, fr):
        return self.on(self.ev_(n.value, st, fr), lambda s, v: [(s, NORMAL)])

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return self.on(self.ev_(n.value, st, fr), lambda s, v: [(s, ('ret', v))])

    def s_Break(self, n, st, fr):
        return [(st, BREAK)]

    def s_Continue(self, n, st, fr):
        return [(st, CONT)]

    def s_Assign(self, n, st, fr):
        def go(s, v):
            outs = [(s, NORMAL)]
            for t in n.targets:
                nxt = []
                for s2, o in outs:
                    if o is NORMAL:
                        nxt.extend(self.assign(t, v, s2, fr))
                    else:
                        nxt.append((s2, o))
                outs = nxt
            return outs
        return self.on(self.ev_(n.value, st, fr), go)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, NORMAL)]
        return self.on(self.ev_(n.value, st, fr), lambda s, v: self.assign(n.target, v, s, fr))

    def s_AugAssign(self, n, st, fr):
        op = BINOPS[type(n.op)]
        t = n.target

        def fin(s, cur, rhs, setter):
            # in place for lists / sets / dicts
            if isinstance(cur, Ref) and isinstance(s.heap[cur.oid], HList) and op == '+':
                out = []
                for s2, r in self.call(BuiltinM(cur, 'extend'), [rhs], {}, s, fr, n):
                    if isinstance(r, Raise):
                        out.append((s2, ('raise', r.exc)))
                    else:
                        out.extend(setter(s2, cur))
                return out
            if isinstance(cur, Ref) and isinstance(s.heap[cur.oid], HDict) and op == '|':
                out = []
                for s2, r in self.call(BuiltinM(cur, 'update'), [rhs], {}, s, fr, n):
                    out.extend(setter(s2, cur))
                return out
            return self.on(self.binop(op, cur, rhs, s, fr, n), setter)
        if isinstance(t, ast.Name):
            ld = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            return self.on(self.ev_(ld, st, fr), lambda s, cur: self.on(
                self.ev_(n.value, s, fr), lambda s2, r: fin(
                    s2, cur, r, lambda s3, v: self.assign(t, v, s3, fr))))
        if isinstance(t, ast.Attribute):
            return self.on(self.ev_(t.value, st, fr), lambda s, b: self.on(
                self.load_attr(s, b, self.mangle(fr, t.attr), fr, t), lambda s1, cur: self.on(
                    self.ev_(n.value, s1, fr), lambda s2, r: fin(
                        s2, cur, r, lambda s3, v: self.store_attr(
                            s3, b, self.mangle(fr, t.attr), v, fr, n)))))
        if isinstance(t, ast.Subscript):
            return self.on(self.ev_list([t.value, t.slice], st, fr), lambda s, bi: self.on(
                self.load_item(s, bi[0], bi[1], fr, t), lambda s1, cur: self.on(
                    self.ev_(n.value, s1, fr), lambda s2, r: fin(
                        s2, cur, r, lambda s3, v: self.store_item(s3, bi[0], bi[1], v, fr, n)))))
        raise Unsupported('augassign')

    def assign(self, t, v, st, fr):
        """-> [(st, outcome)]"""
        if isinstance(t, ast.Name):
            self.set_name(st, fr, t.id, v)
            return [(st, NORMAL)]
        if isinstance(t, ast.Attribute):
            return self.on(self.ev_(t.value, st, fr), lambda s, b: self.store_attr(
                s, b, self.mangle(fr, t.attr), v, fr, t))
        if isinstance(t, ast.Subscript):
            return self.on(self.ev_list([t.value, t.slice], st, fr), lambda s, bi: self.store_item(
                s, bi[0], bi[1], v, fr, t))
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            outs = []
            for s, items in self.unpack(st, v, len(t.elts), star[0] if star else None, fr, t):
                if isinstance(items, Raise):
                    outs.append((s, ('raise', items.exc)))
                    continue
                cur = [(s, NORMAL)]
                for e, x in zip(t.elts, items):
                    nxt = []
                    for s2, o in cur:
                        if o is not NORMAL:
                            nxt.append((s2, o))
                            continue
                        if isinstance(e, ast.Starred):
                            e2 = e.value
                        else:
                            e2 = e
                        nxt.extend(self.assign(e2, x, s2, fr))
                    cur = nxt
                outs.extend(cur)
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise Unsupported('assign target %s' % type(t).__name__)

    def unpack(self, st, v, n, star, fr, node):
        if isinstance(v, Sym):
            if star is None:
                return [(st, [Sym(('item', v.key, ('c', 'int', i))) for i in range(n)])]
            res = []
            for i in range(n):
                if i == star:
                    res.append(st.alloc(HList([Seg(Sym(('rest', v.key, i)))])))
                else:
                    res.append(Sym(('item', v.key, ('c', 'int', i))))
            return [(st, res)]
        out = []
        for s, items in self.iter_values(st, v, fr, node):
            if isinstance(items, Raise):
                out.append((s, items))
            elif star is None:
                if len(items) != n:
                    out.append((s, self.raise_(s, 'builtins.ValueError', node, fr,
                                               'cannot unpack %d values into %d' % (len(items), n))))
                else:
                    out.append((s, items))
            else:
                after = n - star - 1
                if len(items) < n - 1:
                    out.append((s, self.raise_(s, 'builtins.ValueError', node, fr,
                                               'not enough values to unpack')))
                else:
                    mid = items[star:len(items) - after]
                    out.append((s, items[:star] + [s.alloc(HList(mid))] +
                                items[len(items) - after:]))
        return out

    def s_If(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, ('raise', b.exc)))
            else:
                out.extend(self.ex(n.body if b else n.orelse, s, fr))
        return out

    def cond(self, e, st, fr):
        """Evaluate an expression for its truth: [(st, bool | Raise)]."""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            pend = [st]
            done = []
            for x in e.values:
                nxt = []
                for s in pend:
                    for s2, b in self.cond(x, s, fr):
                        if isinstance(b, Raise):
                            done.append((s2, b))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            done.append((s2, b))
                pend = nxt
            return done + [(s, is_and) for s in pend]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.cond(e.operand, st, fr)]
        out = []
        for s, v in self.ev_(e, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, fr, e))
        return out

    def s_While(self, n, st, fr):
        live = [st]
        out = []
        it = total = 0
        seen = None
        while True:
            nxt = []
            total += 1
            nf = len(live[0].facts) if len(live) == 1 else -1
            if nf < 0:
                seen = None
            elif 4 < total <= 40:
                # the state at the head of the loop is the one of an earlier iteration, and nothing undecided happened
                # since: the loop does not end
                if seen is None or seen[0] != (nf, len(out), self.trace_reads):
                    seen = ((nf, len(out), self.trace_reads), live[0].n, {}, live[0].tlen)
                k = self.fingerprint(live[0], seen[1])
                if k in seen[2] and not any(e.kind == 'await' or OTHERS.search(str(e.target))
                                            for e in live[0].events(seen[3])):
                    self.diverged.append((live[0], n, fr))
                    break
                seen[2][k] = total
            if total > 300:
                self.cut += 1
                break
            for x in live:
                for s, b in self.cond(n.test, x, fr):
                    if isinstance(b, Raise):
                        out.append((s, ('raise', b.exc)))
                    elif not b:
                        out.extend(self.ex(n.orelse, s, fr) if n.orelse else [(s, NORMAL)])
                    elif it == self.max_while:
                        self.cut += 1
                    else:
                        for s2, o in self.ex(n.body, s, fr):
                            if o is NORMAL or o is CONT:
                                nxt.append(s2)
                            elif o is BREAK:
                                out.append((s2, NORMAL))
                            else:
                                out.append((s2, o))
            live = nxt
            if not live:
                break
            if not (len(live) == 1 and len(live[0].facts) == nf):
                it += 1     # iterations that decide an unknown are bounded
        return out

    def fingerprint(self, st, n0):
        """The state up to the names of the objects made since the object count was n0."""
        names = {}

        def oid(o):
            if o in names:
                return names[o]
            d = o.lstrip('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
            if not d.isdigit() or int(d) <= n0:
                return o
            names[o] = 'new%d' % len(names)
            todo.append(o)
            return names[o]

        def canon(x, depth=0):
            if isinstance(x, str):
                return oid(x) if x in st.heap else x
            if isinstance(x, (ast.AST, type(None), int, float, bool, bytes)):
                return id(x) if isinstance(x, ast.AST) else x
            if depth > 40:
                return id(x)
            if isinstance(x, (tuple, list)):
                return tuple([canon(y, depth + 1) for y in x])
            if isinstance(x, (dict,)):
                return tuple([(canon(a, depth + 1), canon(b, depth + 1)) for a, b in x.items()])
            if isinstance(x, (set, frozenset)):
                return tuple(sorted(repr(canon(y, depth + 1)) for y in x))
            if type(x).__module__.startswith('sa.') and not isinstance(x, Frame) and \
                    type(x).__name__ not in ('ClassInfo', 'FuncInfo', 'Module', 'Model'):
                fs = []
                for c in type(x).__mro__:
                    for a in c.__dict__.get('__slots__', ()) or ():
                        fs.append((a, canon(getattr(x, a, None), depth + 1)))
                for a, b in sorted(getattr(x, '__dict__', {}).items()):
                    fs.append((a, canon(b, depth + 1)))
                return (type(x).__name__, tuple(fs))
            return id(x)
        todo = []
        out = []
        for o, h in st.heap.items():
            d = o.lstrip('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') if isinstance(o, str) else ''
            if not d.isdigit() or int(d) <= n0:
                out.append((o, canon(h)))
        while todo:
            out.append(canon(st.heap[todo.pop(0)]))
        return hash((tuple(out), canon(st.locks), canon(st.cur_exc)))

    def s_For(self, n, st, fr):
        out = []
        for s, it in self.ev_(n.iter, st, fr):
            if isinstance(it, Raise):
                out.append((s, ('raise', it.exc)))
                continue
            out.extend(self.for_over(n, it, s, fr))
        return out

    s_AsyncFor = s_For

    def for_over(self, n, it, st, fr):
        def body(s, x):
            out = []
            for s2, o in self.assign(n.target, x, s, fr):
                if o is NORMAL:
                    out.extend(self.ex(n.body, s2, fr))
                else:
                    out.append((s2, o))
            return out
        out = []
        for s, o in self.iterate(st, it, fr, n, body):
            if o is BREAK:
                out.append((s, NORMAL))
            elif o is NORMAL and n.orelse:
                out.extend(self.ex(n.orelse, s, fr))
            else:
                out.append((s, o))
        return out

    def iterate(self, st, it, fr, n, body):
        """body(state, item) -> outcomes, for one item after the other; the outcome NORMAL stands
        for the end of the items."""
        # live iteration over a heap list without unknown segments
        of = None
        if isinstance(it, Ref) and isinstance(st.heap[it.oid], HDict) and st.heap[it.oid].base is None:
            d = it
            it = st.alloc(HList([k for k, x in st.heap[d.oid].entries if x is not DELETED]), 'view')
            st.meta[('view', it.oid)] = ('keys', d.oid)
        if isinstance(it, Ref) and ('view', it.oid) in st.meta:
            self.refresh_view(st, it)
            of = st.meta[('view', it.oid)][1]
            nof = self.dict_size(st.heap[of])
        if isinstance(it, Ref) and isinstance(st.heap[it.oid], HList) and \
                not any(isinstance(i, Seg) for i in st.heap[it.oid].items):
            out = []
            live = [(st, 0)]
            items0 = tuple(st.heap[it.oid].items)
            kind = st.heap[it.oid].kind
            guard = 0
            while live:
                guard += 1
                if guard > 60 + len(items0):
                    self.cut += len(live)
                    break
                nxt = []
                for s, i in live:
                    h = s.heap[it.oid]
                    if of is not None and self.dict_size(s.heap[of]) != nof:
                        r = self.raise_(s, 'builtins.RuntimeError', n, fr,
                                        'dictionary changed size during iteration')
                        out.append((s, ('raise', r.exc)))
                        continue
                    if (len(h.items) != len(items0) or kind == 'deque' and
                            any(x is not y and x.key != y.key for x, y in zip(h.items, items0))) and \
                            kind in ('deque', 'set'):
                        r = self.raise_(s, 'builtins.RuntimeError', n, fr,
                                        '%s mutated during iteration' % kind)
                        out.append((s, ('raise', r.exc)))
                        continue
                    if any(isinstance(x, Seg) for x in h.items[i:]):
                        for s2, items in self.materialise(s, h.items[i:]):
                            out.extend(self._iterate_items(items, s2, body))
                        continue
                    if i >= len(h.items):
                        out.append((s, NORMAL))
                        continue
                    for s3, o2 in body(s, h.items[i]):
                        if o2 is NORMAL or o2 is CONT:
                            nxt.append((s3, i + 1))
                        else:
                            out.append((s3, o2))
                live = nxt
            return out
        h = st.heap[it.oid] if isinstance(it, Ref) else None
        if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and \
                self.find_member(h.cls, '__iter__'):
            # an iterator written in the program: advanced once per turn of the loop
            out = []
            live = []
            for s, v in self.call_method(st, it, '__iter__', [], {}, fr, n):
                if isinstance(v, Raise):
                    out.append((s, ('raise', v.exc)))
                elif not (isinstance(v, Ref) and v.oid == it.oid):
                    out.extend(self.iterate(s, v, fr, n, body))
                else:
                    live.append(s)

            def step(s):
                return self.call_method(s, it, '__next__', [], {}, fr, n)
            return out + self._iterate_next(live, step, body)
        if isinstance(h, HIter) and h.lazy is not None:
            return self.iterate_lazy(st, it, h.lazy, fr, n, body)
        if isinstance(h, HIter) and h.live is not None and ('iterof', it.oid) not in st.meta and \
                isinstance(st.heap.get(h.live.oid), HList) and \
                not any(isinstance(x, Seg) for x in st.heap[h.live.oid].items):
            return self._iterate_next([st], lambda s: self.ext.b_next(self, [it], {}, s, fr, n), body,
                                      60 + len(st.heap[h.live.oid].items))
        out = []
        for s, items in self.iter_values(st, it, fr, n, late=True):
            if isinstance(items, Raise):
                out.append((s, ('raise', items.exc)))
                continue
            out.extend(self._iterate_items(items, s, body))
        return out

    def _iterate_next(self, live, step, body, limit=60):
        """step(state) -> the next item or StopIteration."""
        out = []
        guard = 0
        while live:
            guard += 1
            if guard > limit:
                self.cut += len(live)
                break
            nxt = []
            for s0 in live:
                for s, v in step(s0):
                    if isinstance(v, Raise):
                        if self.exc_name(s, v.exc) == 'builtins.StopIteration':
                            out.append((s, NORMAL))
                        else:
                            out.append((s, ('raise', v.exc)))
                        continue
                    for s3, o2 in body(s, v):
                        if o2 is NORMAL or o2 is CONT:
                            nxt.append(s3)
                        else:
                            out.append((s3, o2))
            live = nxt
        return out

    def _iterate_items(self, items, st, body):
        out = []
        live = [st]
        for x in items:
            nxt = []
            for s in live:
                if isinstance(x, Raise):        # what the iterator raises in the end
                    out.append((s, ('raise', x.exc)))
                    continue
                for s3, o2 in body(s, x):
                    if o2 is NORMAL or o2 is CONT:
                        nxt.append(s3)
                    else:
                        out.append((s3, o2))
            live = nxt
        return out + [(s, NORMAL) for s in live]

    def iterate_lazy(self, st, it, lazy, fr, n, body):
        """The items of an iterator nobody has asked anything yet, computed one by one."""
        st.heap[it.oid] = HIter(())
        rest = HIter((Seg(Sym(('rest', it.oid))),))

        def left(s):
            s.heap[it.oid] = rest

        def ended(outs):
            for s, o in outs:
                if o is not NORMAL and o is not CONT:
                    left(s)
            return outs
        if lazy[0] == 'gen':
            self.tokens += 1
            tok = ('genout', self.tokens)

            def yieldh(s, v, yfr, ynode):
                out = []
                for s2, o in body(s, v):
                    if o is NORMAL or o is CONT:
                        out.append((s2, NONE))
                    else:
                        # the loop is left: the generator is closed
                        s2.meta[tok] = o
                        x = s2.alloc(HObj('builtins.GeneratorExit', {'args': TupleV([])}), 'x')
                        out.append((s2, Raise(x, ynode)))
                return out
            res = []
            for s, o in self.run_body(lazy[1], lazy[2], lazy[3], st, fr, n, yieldh=yieldh):
                w = s.meta.pop(tok, None)
                if w is not None:
                    left(s)
                    if o is not NORMAL and o[0] == 'raise' and \
                            self.exc_name(s, o[1]) != 'builtins.GeneratorExit':
                        res.append((s, o))
                    else:
                        res.append((s, w))
                elif o is not NORMAL and o[0] == 'raise':
                    if self.exc_name(s, o[1]) == 'builtins.StopIteration':
                        r = self.raise_(s, 'builtins.RuntimeError', n, fr, 'generator raised StopIteration')
                        o = ('raise', r.exc)
                    res.append((s, o))
                else:
                    res.append((s, NORMAL))
            return res

        def on_value(outs, go):
            out = []
            for s, v in outs:
                if isinstance(v, Raise):
                    out.append((s, ('raise', v.exc)))
                else:
                    out.extend(go(s, v))
            return out
        if lazy[0] == 'map' and len(lazy[2]) == 1:
            return ended(self.iterate(st, lazy[2][0], fr, n, lambda s, x: on_value(
                self.call(lazy[1], [x], {}, s, fr, n), body)))
        if lazy[0] == 'map':
            return ended(self.iterate_zip(st, lazy[2], False, fr, n, lambda s, x: on_value(
                self.call(lazy[1], list(x.items), {}, s, fr, n), body)))
        if lazy[0] == 'filter':
            def test(s, x):
                rs = [(s, x)] if isinstance(lazy[1], Const) and lazy[1].v is None else self.call(
                    lazy[1], [x], {}, s, fr, n)
                out = []
                for s2, r in rs:
                    if isinstance(r, Raise):
                        out.append((s2, ('raise', r.exc)))
                        continue
                    for s3, b in self.truth(s2, r, fr, n):
                        if isinstance(b, Raise):
                            out.append((s3, ('raise', b.exc)))
                        elif b:
                            out.extend(body(s3, x))
                        else:
                            out.append((s3, NORMAL))
                return out
            return ended(self.iterate(st, lazy[2], fr, n, test))
        if lazy[0] == 'enum':
            k = ('enum', it.oid)
            st.meta[k] = 0

            def count(s, x):
                i = s.meta[k]
                s.meta[k] = i + 1
                start = lazy[2]
                c = Const(i + start.v) if isinstance(start, Const) else \
                    Sym(('bin', '+', start.key, ('c', 'int', i)))
                return body(s, TupleV([c, x]))
            return ended(self.iterate(st, lazy[1], fr, n, count))
        if lazy[0] == 'zip':
            return ended(self.iterate_zip(st, lazy[1], lazy[2], fr, n, body))
        if lazy[0] == 'call':
            # iter(function, sentinel)
            def step(s):
                out = []
                for s2, v in self.call(lazy[1], [], {}, s, fr, n):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                        continue
                    for s3, r in self.eq_(v, lazy[2], s2, fr, n):
                        if isinstance(r, Raise):
                            out.append((s3, r))
                            continue
                        for s4, b in self.truth(s3, r, fr):
                            out.append((s4, self.raise_(s4, 'builtins.StopIteration', n, fr)
                                        if b is True else v))
                return out
            return ended(self._iterate_next([st], step, body))
        if lazy[0] == 'count':
            def step2(s):
                s.meta[('count', it.oid)] = i = s.meta.get(('count', it.oid), -1) + 1
                return [(s, Const(lazy[1] + i * lazy[2]))]
            st.meta[('count', it.oid)] = -1
            out = self._iterate_next([st], step2, body)
            for s, o in out:
                s.heap[it.oid] = HIter((), lazy=('count', lazy[1] + lazy[2] * (
                    s.meta[('count', it.oid)] + 1), lazy[2]))
            return out
        raise AssertionError(lazy)

    def drive(self, st, gen, fn, fr, node):
        """Run a generator to its end: what fn gives (or raises) is what the yield gives.  The
        result is what the generator returns."""
        h = st.heap.get(gen.oid) if isinstance(gen, Ref) else None
        if not (isinstance(h, HIter) and h.lazy is not None and h.lazy[0] == 'gen'):
            return [(st, NONE)]
        st.heap[gen.oid] = HIter(())

        def yieldh(s, v, yfr, ynode):
            return [(s, NONE)] if fn is None else self.call(fn, [v], {}, s, fr, node)
        return self.finish(self.run_body(h.lazy[1], h.lazy[2], h.lazy[3], st, fr, node, yieldh=yieldh))

    def iterate_zip(self, st, srcs, strict, fr, n, body):
        if not srcs:
            return [(st, NORMAL)]
        outs = [(st, [])]
        lead = 0
        for i, x in enumerate(srcs):
            h = st.heap[x.oid] if isinstance(x, Ref) else None
            if isinstance(h, HIter) and h.lazy is not None and h.lazy[0] != 'count':
                lead = i
                break
        res = []
        for i, x in enumerate(srcs):
            nxt = []
            for s, l in outs:
                if i == lead:
                    nxt.append((s, l + [x]))
                    continue
                for s2, v in self.ext.b_iter(self, [x], {}, s, fr, n):
                    if isinstance(v, Raise):
                        res.append((s2, ('raise', v.exc)))
                    else:
                        nxt.append((s2, l + [v]))
            outs = nxt
        for s, its in outs:
            def step(s, x, its=its):
                outs = [(s, [])]
                res = []
                for i, it in enumerate(its):
                    nxt = []
                    for s2, l in outs:
                        if i == lead:
                            nxt.append((s2, l + [x]))
                            continue
                        for s3, v in self.ext.b_next(self, [it], {}, s2, fr, None):
                            if not isinstance(v, Raise):
                                nxt.append((s3, l + [v]))
                            elif self.exc_name(s3, v.exc) == 'builtins.StopIteration':
                                if strict:
                                    r = self.raise_(s3, 'builtins.ValueError', n, fr,
                                                    'zip() argument %d is shorter' % (i + 1))
                                    res.append((s3, ('raise', r.exc)))
                                else:
                                    res.append((s3, ('zipend',)))
                            else:
                                res.append((s3, ('raise', v.exc)))
                    outs = nxt
                for s2, l in outs:
                    res.extend(body(s2, TupleV(l)))
                return res
            for s2, o in self.iterate(s, its[lead], fr, n, step):
                if o is NORMAL and strict:
                    pend = [s2]
                    for i, it in enumerate(its):
                        if i == lead:
                            continue
                        nxt = []
                        for s3 in pend:
                            for s4, v in self.ext.b_next(self, [it], {}, s3, fr, None):
                                if isinstance(v, Raise):
                                    nxt.append(s4)
                                else:
                                    r = self.raise_(s4, 'builtins.ValueError', n, fr,
                                                    'zip() argument %d is longer' % (i + 1))
                                    res.append((s4, ('raise', r.exc)))
                        pend = nxt
                    res.extend((s3, NORMAL) for s3 in pend)
                else:
                    res.append((s2, NORMAL if o == ('zipend',) else o))
        return res

    def force(self, st, v, fr, node):
        """All the items of an iterator, computed now: the states (what is raised comes last)."""
        h = st.heap[v.oid]
        if h.lazy is None:
            return [st]
        tok = ('forced', v.oid)
        saved = st.meta.get(tok)
        st.meta[tok] = ()

        def body(s, x):
            s.meta[tok] = s.meta[tok] + (x,)
            return [(s, NORMAL)]
        out = []
        for s, o in self.iterate_lazy(st, v, h.lazy, fr, node, body):
            items = s.meta.pop(tok)
            if saved is not None:
                s.meta[tok] = saved
            s.heap[v.oid] = HIter(items, err=o[1] if o is not NORMAL and o[0] == 'raise' else None)
            out.append(s)
        return out

    def s_Try(self, n, st, fr):
        out = []
        for s, o in self.ex(n.body, st, fr):
            if o is NORMAL:
                out.extend(self.ex(n.orelse, s, fr) if n.orelse else [(s, o)])
            elif o[0] == 'raise':
                out.extend(self.handle(n, s, o, fr))
            else:
                out.append((s, o))
        if not n.finalbody:
            return out
        fin = []
        for s, o in out:
            saved = s.cur_exc
            if o[0] == 'raise':
                s.cur_exc = (o[1],) + s.cur_exc
            for s2, o2 in self.ex(n.finalbody, s, fr):
                s2.cur_exc = saved
                fin.append((s2, o if o2 is NORMAL else o2))
        return fin

    def handle(self, n, st, o, fr):
        exc = o[1]
        out = []
        pend = [st]
        for h in n.handlers:
            nxt = []
            for s in pend:
                if h.type is None:
                    ms = [(s, True)]
                else:
                    ms = []
                    for s1, tv in self.ev_(h.type, s, fr):
                        if isinstance(tv, Raise):
                            ms.append((s1, False))
                        else:
                            ms.extend(self.exc_match(s1, exc, tv))
                for s2, b in ms:
                    if not b:
                        nxt.append(s2)
                        continue
                    saved = s2.cur_exc
                    s2.cur_exc = (exc,) + saved
                    self.ev('caught', self.exc_name(s2, exc), s2, h, fr, data=exc)
                    if h.name:
                        self.set_name(s2, fr, h.name, exc)
                    for s3, o3 in self.ex(h.body, s2, fr):
                        s3.cur_exc = saved
                        out.append((s3, o3))
            pend = nxt
        return out + [(s, o) for s in pend]

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            x = st.cur_exc[0] if st.cur_exc else self.make_exc(st, 'builtins.RuntimeError')
            self.ev('raise', self.exc_name(st, x), st, n, fr, result=x, data='re-raise')
            return [(st, ('raise', x))]

        def go(s, v):
            if isinstance(v, ClassV):
                rs = self.call(v, [], {}, s, fr, n)
            elif isinstance(v, ExtV):
                rs = [(s, self.make_exc(s, v.name))]
            else:
                rs = [(s, v)]
            out = []
            for s2, x in rs:
                if isinstance(x, Raise):
                    out.append((s2, ('raise', x.exc)))
                    continue
                self.ev('raise', self.exc_name(s2, x), s2, n, fr, result=x)
                if n.cause is not None:
                    for s3, c in self.ev_(n.cause, s2, fr):
                        if isinstance(x, Ref) and not isinstance(c, Raise):
                            h = s3.heap[x.oid].copy()
                            h.attrs['__cause__'] = c
                            s3.heap[x.oid] = h
                        out.append((s3, ('raise', x)))
                else:
                    out.append((s2, ('raise', x)))
            return out
        return self.on(self.ev_(n.exc, st, fr), go)

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, ('raise', b.exc)))
            elif b:
                out.append((s, NORMAL))
            else:
                r = self.raise_(s, 'builtins.AssertionError', n, fr)
                out.append((s, ('raise', r.exc)))
        return out

    def s_Delete(self, n, st, fr):
        outs = [(st, NORMAL)]
        for t in n.targets:
            nxt = []
            for s, o in outs:
                if o is not NORMAL:
                    nxt.append((s, o))
                    continue
                if isinstance(t, ast.Subscript):
                    nxt.extend(self.on(self.ev_list([t.value, t.slice], s, fr),
                                       lambda s2, bi: self.del_item(s2, bi[0], bi[1], fr, n)))
                elif isinstance(t, ast.Name):
                    e = s.heap[fr.env]
                    nv = dict(e.vars)
                    nv.pop(t.id, None)
                    s.heap[fr.env] = HEnv(nv, e.parent, e.finfo)
                    nxt.append((s, NORMAL))
                elif isinstance(t, ast.Attribute):
                    nxt.extend(self.on(self.ev_(t.value, s, fr),
                                       lambda s2, b: self.del_attr(s2, b, self.mangle(fr, t.attr))))
                else:
                    raise Unsupported('del')
            outs = nxt
        return outs

    def del_attr(self, st, b, name):
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], HObj):
            h = st.heap[b.oid].copy()
            h.attrs.pop(name, None)
            st.heap[b.oid] = h
        return [(st, NORMAL)]

    def s_FunctionDef(self, n, st, fr):
        qual = fr.qual + '.<locals>.' + n.name
        outs = self.make_func(st, n, fr.mod, fr.lexcls, fr.env, qual, fr)
        # in-function decorators that are not known identity: apply by call
        res = []
        for s, f in outs:
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                nm = ast.unparse(d.func if isinstance(d, ast.Call) else d)
                if nm.split('.')[-1] in ('contextmanager', 'staticmethod', 'property',
                                         'asynccontextmanager') or \
                        nm.endswith('.fixture') and 'pytest' not in self.model.modules:
                    continue
                nxt = []
                for s2, v in cur:
                    for s3, dv in self.ev_(d, s2, fr):
                        if isinstance(dv, Raise):
                            nxt.append((s3, v))
                        else:
                            nxt.extend(self.call(dv, [v], {}, s3, fr, d))
                cur = nxt
            for s2, v in cur:
                if isinstance(v, Raise):
                    res.append((s2, ('raise', v.exc)))
                    continue
                self.set_name(s2, fr, n.name, v)
                res.append((s2, NORMAL))
        return res

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        ci = self.model.cls(fr.mod, n, fr.qual + '.<locals>.' + n.name)
        old = st.heap.get('cenv:' + ci.qual)
        if old is not None and old.parent is not fr.env and old.parent != fr.env:
            # the statement is executed again elsewhere: another class
            k = st.meta.get(('clsn', ci.qual), 1) + 1
            st.meta[('clsn', ci.qual)] = k
            ci = self.model.cls_again(ci, k)
        if ci._bases is None or '#' in ci.qual:
            bases = []
            for b in n.bases:
                bn = b.value if isinstance(b, ast.Subscript) else b
                rs = self.ev_(bn, st.copy(), fr)
                v = rs[0][1] if len(rs) == 1 else None
                bases.append(v.ci if isinstance(v, ClassV) else v.name if isinstance(v, ExtV)
                             else ast.unparse(bn))
            if ci._bases != bases:
                ci._bases, ci._mro = bases, None
        # methods of a local class close over the function's environment
        st.heap['cenv:' + ci.qual] = HEnv({}, fr.env, None)
        self.set_name(st, fr, n.name, ClassV(ci))
        for c in ci.mro[1:]:
            if isinstance(c, ClassInfo) and '__init_subclass__' in c.members:
                f = self.method_func(st, c, c.members['__init_subclass__'][-1])
                outs = [(st, {})]
                for k in n.keywords:
                    if k.arg != 'metaclass':
                        outs = [(s2, v if isinstance(v, Raise) else dict(kw, **{k.arg: v}))
                                for s, kw in outs for s2, v in self.ev_(k.value, s, fr)]
                return [r for s, kw in outs for r in self.on(
                    self.call(BoundV(f, ClassV(ci)), [], kw, s, fr, n), lambda s2, v: [(s2, NORMAL)])]
        return [(st, NORMAL)]

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            v = ModV(self.model.modules[tgt]) if tgt in self.model.modules else self.extval(tgt)
            self.set_name(st, fr, nm, v)
        return [(st, NORMAL)]

    def s_ImportFrom(self, n, st, fr):
        base = fr.mod.abs_from(n)
        outs = [st]
        for a in n.names:
            nxt = []
            for s in outs:
                if base in self.model.modules:
                    rs = self._from_mod(s, base, a.name, fr, n, ())
                else:
                    rs = [(s, self.import_from(s, base, a.name, fr, n))]
                for s2, v in rs:
                    if isinstance(v, Raise):
                        v = Sym(('s', base + '.' + a.name))
                    self.set_name(s2, fr, a.asname or a.name, v)
                    nxt.append(s2)
            outs = nxt
        return [(s, NORMAL) for s in outs]

    def s_With(self, n, st, fr):
        return self._with(self.plain_with(n, fr), 0, st, fr)

    def plain_with(self, n, fr):
        """with ExitStack() as s: ... written with nested statements, if s is only used for that."""
        if isinstance(n, ast.AsyncWith) or len(n.items) != 1 or not isinstance(
                n.items[0].optional_vars, ast.Name) or not isinstance(n.items[0].context_expr, ast.Call):
            return n
        f = n.items[0].context_expr.func
        if self.model.static_resolve(fr.mod, f) != 'contextlib.ExitStack' and not (
                isinstance(f, ast.Attribute) and f.attr == 'ExitStack' or
                isinstance(f, ast.Name) and f.id == 'ExitStack'):
            return n
        r = self.model.rewritten.get(id(n))
        if r is not None:
            return r
        nm = n.items[0].optional_vars.id

        def use(e):
            return e.func.attr if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                isinstance(e.func.value, ast.Name) and e.func.value.id == nm and \
                e.func.attr in ('enter_context', 'callback') and not any(
                    isinstance(a, ast.Starred) for a in e.args) and e.args else None

        def uses(x):
            return sum(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(x))

        def block(stmts):
            for i, s in enumerate(stmts):
                e = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
                if use(e) and uses(s) == 1 and (isinstance(s, ast.Expr) or len(s.targets) == 1):
                    rest = block(stmts[i + 1:])
                    if rest is None:
                        return None
                    if use(e) == 'enter_context':
                        w = ast.With([ast.withitem(e.args[0], s.targets[0] if isinstance(
                            s, ast.Assign) else None)], rest or [ast.copy_location(ast.Pass(), s)])
                        return stmts[:i] + [ast.copy_location(w, s)]
                    if isinstance(s, ast.Assign):
                        return None
                    temps = ['.%s%d' % (nm, j) for j in range(len(e.args) + len(e.keywords))]
                    pre = [ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], a), s)
                           for t, a in zip(temps, e.args + [k.value for k in e.keywords])]
                    call = ast.Call(ast.Name(temps[0], ast.Load()), [
                        ast.Name(t, ast.Load()) for t in temps[1:len(e.args)]], [
                            ast.keyword(k.arg, ast.Name(t, ast.Load()))
                            for k, t in zip(e.keywords, temps[len(e.args):])])
                    t = ast.copy_location(ast.Try(rest or [ast.copy_location(ast.Pass(), s)], [], [], [
                        ast.copy_location(ast.Expr(call), s)]), s)
                    for y in ast.walk(ast.Module(pre + [t.finalbody[0]], [])):
                        if 'lineno' in y._attributes and getattr(y, 'lineno', None) is None:
                            ast.copy_location(y, s)
                    return stmts[:i] + pre + [t]
                if uses(s):
                    return None
            return stmts
        body = block(n.body)
        r = n
        if body is not None:
            r = ast.copy_location(ast.With([], body), n)
        self.model.rewritten[id(n)] = r
        return r

    def s_Match(self, n, st, fr):
        out = []
        for s, v in self.ev_(n.subject, st, fr):
            if isinstance(v, Raise):
                out.append((s, ('raise', v.exc)))
                continue
            pend = [s]
            for c in n.cases:
                nxt = []
                for s2 in pend:
                    for s3, b in self.pattern(c.pattern, v, s2, fr, n):
                        if b is True and c.guard is not None:
                            rs = self.cond(c.guard, s3, fr)
                        else:
                            rs = [(s3, b)]
                        for s4, t in rs:
                            if isinstance(t, Raise):
                                out.append((s4, ('raise', t.exc)))
                            elif t:
                                out.extend(self.ex(c.body, s4, fr))
                            else:
                                nxt.append(s4)
                pend = nxt
            out.extend((s2, NORMAL) for s2 in pend)
        return out

    def pattern(self, p, v, st, fr, n):
        """-> [(st, bool | Raise)], names bound"""
        def truth(outs):
            res = []
            for s, r in outs:
                res.extend([(s, r)] if isinstance(r, Raise) else self.truth(s, r, fr))
            return res

        def both(outs, f):
            return [r for s, b in outs for r in (f(s) if b is True else [(s, b)])]

        def bind(s, name):
            if name is not None:
                self.set_name(s, fr, name, v)
            return [(s, True)]
        if isinstance(p, ast.MatchValue):
            return [r for s2, x in self.ev_(p.value, st, fr) for r in (
                [(s2, x)] if isinstance(x, Raise) else truth(self.eq_(v, x, s2, fr, n)))]
        if isinstance(p, ast.MatchSingleton):
            return self.truth(st, self.is_(v, Const(p.value), st), fr)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return bind(st, p.name)
            return both(self.pattern(p.pattern, v, st, fr, n), lambda s: bind(s, p.name))
        if isinstance(p, ast.MatchOr):
            outs, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for s in pend:
                    for s2, b in self.pattern(q, v, s, fr, n):
                        if b is False:
                            nxt.append(s2)
                        else:
                            outs.append((s2, b))
                pend = nxt
            return outs + [(s, False) for s in pend]
        if isinstance(p, ast.MatchSequence):
            outs = self.isinstance_(st, v, TupleV([ExtV('builtins.list'), ExtV('builtins.tuple'),
                                                   ExtV('collections.deque')]), fr, n)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]

            def items(s):
                res = []
                for s2, l in self.iter_values(s, v, fr, n):
                    if isinstance(l, Raise):
                        res.append((s2, l))
                        continue
                    k = len(p.patterns)
                    if len(l) != k if not star else len(l) < k - 1:
                        res.append((s2, False))
                        continue
                    pairs = list(zip(p.patterns, l))
                    if star:
                        i = star[0]
                        m = len(l) - (k - 1)
                        rest = s2.alloc(HList(l[i:i + m]))
                        pairs = list(zip(p.patterns[:i], l[:i])) + list(zip(
                            p.patterns[i + 1:], l[i + m:]))
                        if p.patterns[i].name:
                            self.set_name(s2, fr, p.patterns[i].name, rest)
                    cur = [(s2, True)]
                    for q, x in pairs:
                        cur = both(cur, lambda s3, q=q, x=x: self.pattern(q, x, s3, fr, n))
                    res.extend(cur)
                return res
            return both(outs, items)
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            cur = self.isinstance_(st, v, ExtV('builtins.dict'), fr, n)
            for k, q in zip(p.keys, p.patterns):
                def one(s, k=k, q=q):
                    res = []
                    for s2, kv in self.ev_(k, s, fr):
                        for s3, has in truth(self.in_(kv, v, s2, fr, n)):
                            if has is not True:
                                res.append((s3, has))
                                continue
                            for s4, x in self.load_item(s3, v, kv, fr, n):
                                res.extend([(s4, x)] if isinstance(x, Raise) else
                                           self.pattern(q, x, s4, fr, n))
                    return res
                cur = both(cur, one)
            return cur
        if isinstance(p, ast.MatchClass):
            res = []
            for s, c in self.ev_(p.cls, st, fr):
                if isinstance(c, Raise):
                    res.append((s, c))
                    continue
                cur = self.isinstance_(s, v, c, fr, n)
                names = list(p.kwd_attrs)
                pats = list(p.kwd_patterns)
                if p.patterns:
                    if isinstance(c, ExtV):
                        cur = both(cur, lambda s2: self.pattern(p.patterns[0], v, s2, fr, n))
                    elif isinstance(c, ClassV):
                        for s2, a in self.class_attr(s, c, '__match_args__', fr, n):
                            ns = self.seq_items(s2, a) or ()
                        if len(ns) < len(p.patterns):
                            raise Unsupported('match arguments')
                        names = [x.v for x in ns[:len(p.patterns)]] + names
                        pats = list(p.patterns) + pats
                for a, q in zip(names, pats):
                    def attr(s2, a=a, q=q):
                        r2 = []
                        for s3, x in self.load_attr(s2, v, a, fr, n):
                            if isinstance(x, Raise):
                                r2.append((s3, False if self.exc_name(s3, x.exc) ==
                                           'builtins.AttributeError' else x))
                            else:
                                r2.extend(self.pattern(q, x, s3, fr, n))
                        return r2
                    cur = both(cur, attr)
                res.extend(cur)
            return res
        raise Unsupported('pattern %s' % type(p).__name__)

    s_AsyncWith = s_With

    def _with(self, n, i, st, fr):
        if i == len(n.items):
            return self.ex(n.body, st, fr)
        item = n.items[i]

        def go(s, cm):
            return self.with_value(s, cm, fr, n, lambda s2, v: self._with_body(
                n, i, item, s2, v, fr))
        return self.on(self.ev_(item.context_expr, st, fr), go)

    def _with_body(self, n, i, item, st, v, fr):
        if item.optional_vars is None:
            return self._with(n, i + 1, st, fr)
        out = []
        for s, o in self.assign(item.optional_vars, v, st, fr):
            if o is NORMAL:
                out.extend(self._with(n, i + 1, s, fr))
            else:
                out.append((s, o))
        return out

    def with_value(self, st, cm, fr, node, body):
        """Run body(st, entered value) -> outcomes, inside the context manager value cm."""
        if isinstance(cm, CtxV):
            pend = {}

            def yieldh(s, v, yfr, ynode):
                out = []
                for s2, o in body(s, v):
                    if o is NORMAL:
                        out.append((s2, NONE))
                    elif o[0] == 'raise':
                        out.append((s2, Raise(o[1])))
                    else:
                        s2.meta[('without', cm.env)] = o
                        out.append((s2, NONE))
                return out
            res = []
            for s, o in self.run_body(cm.fn, cm.env, cm.selfv, st, fr, node, yieldh=yieldh):
                w = s.meta.pop(('without', cm.env), None)
                if o[0] == 'raise':
                    res.append((s, o))
                elif w is not None:
                    res.append((s, w))
                else:
                    res.append((s, NORMAL))
            return res
        if isinstance(cm, Ref) and isinstance(st.heap[cm.oid], HObj):
            h = st.heap[cm.oid]
            if isinstance(h.cls, ClassInfo) and self.find_member(h.cls, '__enter__'):
                out = []
                for s, v in self.call_method(st, cm, '__enter__', [], {}, fr, node):
                    if isinstance(v, Raise):
                        out.append((s, ('raise', v.exc)))
                        continue
                    for s2, o in body(s, v):
                        if o[0] == 'raise':
                            a = [self.type_of(s2, o[1]), o[1], NONE]
                        else:
                            a = [NONE, NONE, NONE]
                        for s3, r in self.call_method(s2, cm, '__exit__', a, {}, fr, node):
                            if isinstance(r, Raise):
                                out.append((s3, ('raise', r.exc)))
                            elif o[0] == 'raise':
                                for s4, b in self.truth(s3, r, fr):
                                    out.append((s4, NORMAL if b is True else o))
                            else:
                                out.append((s3, o))
                return out
            if h.cls == 'contextlib.suppress':
                out = []
                for s, o in body(st, NONE):
                    if o[0] == 'raise':
                        for s2, b in self.exc_match(s, o[1], TupleV(h.attrs['args'].items)):
                            out.append((s2, NORMAL if b else o))
                    else:
                        out.append((s, o))
                return out
            if h.cls == 'contextlib.closing':
                out = []
                tgt = h.attrs['args'].items[0]
                for s, o in body(st, tgt):
                    for s2, r in self.call_method(s, tgt, 'close', [], {}, fr, node):
                        out.append((s2, o))
                return out
            if h.cls == 'contextlib.ExitStack':
                return [self._fail_unsup('ExitStack')]
        # opaque context manager: a lock, a file, ...
        self.ev('enter', 'with', st, node, fr, recv=cm)
        k = cm.key
        o = self.callorigin.get(k)
        locks = o is None or self.is_lock(cm, st)
        if locks:
            self.lock(st, k)
        out = []
        val = cm
        if isinstance(cm, Sym):
            val = Sym(('entered', cm.key))
        for s, o in body(st, val):
            if locks:
                self.unlock(s, k)
            self.ev('exit', 'with', s, node, fr, recv=cm)
            out.append((s, o))
        return out

    def is_lock(self, v, st):
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            return isinstance(h, HObj) and h.cls in ('threading.Lock', 'threading.RLock', 'threading.Condition')
        return isinstance(v, Sym) and self.callorigin.get(v.key) in (
            'threading.Lock', 'threading.RLock', 'threading.Condition')

    def lock(self, st, k):
        st.locks = st.locks + (k,)

    def unlock(self, st, k):
        ls = list(st.locks)
        if k in ls:
            ls.reverse()
            ls.remove(k)
            ls.reverse()
        st.locks = tuple(ls)

    def _fail_unsup(self, what):
        raise Unsupported(what)

    # ------------------------------------------------------------------ expressions
    def ev_(self, n, st, fr):
        """Evaluate: [(st, V | Raise)]."""
        self.tick()
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s:%s' % (
                n.__class__.__name__, fr.mod.path, getattr(n, 'lineno', '?')))
        return m(n, st, fr)

    def ev_list(self, nodes, st, fr):
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, l in outs:
                if isinstance(l, Raise):
                    nxt.append((s, l))
                    continue
                for s2, v in self.ev_(n, s, fr):
                    nxt.append((s2, v if isinstance(v, Raise) else l + [v]))
            outs = nxt
        return outs

    def e_Constant(self, n, st, fr):
        return [(st, Const(n.value))]

    def e_Name(self, n, st, fr):
        return self.lookup(st, fr, n.id, n)

    def e_NamedExpr(self, n, st, fr):
        def go(s, v):
            # assign in the nearest function scope
            oid = fr.env
            while s.heap[oid].finfo is None and s.heap[oid].parent is not None:
                oid = s.heap[oid].parent
            self.env_set(s, oid, n.target.id, v)
            return [(s, v)]
        return self.bind(self.ev_(n.value, st, fr), go)

    def e_Attribute(self, n, st, fr):
        return self.bind(self.ev_(n.value, st, fr), lambda s, b: self.load_attr(
            s, b, self.mangle(fr, n.attr), fr, n))

    def e_Subscript(self, n, st, fr):
        return self.bind(self.ev_list([n.value, n.slice], st, fr), lambda s, bi: self.load_item(
            s, bi[0], bi[1], fr, n))

    def e_Slice(self, n, st, fr):
        def go(s, l):
            return [(s, TupleV([Const('slice')] + l))]
        none = ast.copy_location(ast.Constant(None), n)
        return self.bind(self.ev_list([n.lower or none, n.upper or none, n.step or none], st, fr), go)

    def e_Tuple(self, n, st, fr):
        return self.bind(self.elements(n.elts, st, fr), lambda s, l: [(s, TupleV(l))])

    def e_List(self, n, st, fr):
        return self.bind(self.elements(n.elts, st, fr), lambda s, l: [(s, s.alloc(HList(l)))])

    def e_Set(self, n, st, fr):
        return self.bind(self.elements(n.elts, st, fr),
                         lambda s, l: [(s, s.alloc(HList(self.dedup(l), 'set')))])

    def dedup(self, items):
        out, seen = [], set()
        for i in items:
            if i.key not in seen:
                seen.add(i.key)
                out.append(i)
        return out

    def elements(self, elts, st, fr):
        outs = [(st, [])]
        for e in elts:
            nxt = []
            for s, l in outs:
                if isinstance(l, Raise):
                    nxt.append((s, l))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev_(e.value, s, fr):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                        else:
                            for s3, segs in self.segments(s2, v, fr, e):
                                nxt.append((s3, segs if isinstance(segs, Raise) else l + segs))
                else:
                    for s2, v in self.ev_(e, s, fr):
                        nxt.append((s2, v if isinstance(v, Raise) else l + [v]))
            outs = nxt
        return outs

    @staticmethod
    def dict_size(h):
        return sum(1 for e in h.entries if e[1] is not DELETED)

    def refresh_view(self, st, v):
        """keys(), values() and items() show the dictionary as it is now."""
        m = st.meta.get(('view', v.oid))
        if m is not None:
            name, oid = m
            h = st.heap[oid]
            l = []
            if h.base is not None:
                l.append(Seg(Sym((name, h.base) + tuple(k.key for k, x in h.entries if x is DELETED))))
            for k, x in h.entries:
                if x is not DELETED:
                    l.append(TupleV([k, x]) if name == 'items' else k if name == 'keys' else x)
            st.heap[v.oid] = HList(l, st.heap[v.oid].kind)

    def refresh_iter(self, st, v):
        """What is left of an iterator over a list follows the list; -> has a set changed?"""
        h = st.heap[v.oid]
        if h.live is None or ('iterof', v.oid) in st.meta:
            return False
        src = st.heap.get(h.live.oid)
        if not isinstance(src, HList) or any(isinstance(x, Seg) for x in h.items):
            return False
        if len(src.items) == len(h.items) and all(
                x is y for x, y in zip(src.items, h.items)):
            return False
        if src.kind != 'list':
            return len(src.items) != len(h.items)
        st.heap[v.oid] = HIter(src.items, h.pos, h.live)
        return False

    def stale_iter(self, st, v):
        if self.refresh_iter(st, v):
            return True
        m = st.meta.get(('iterof', v.oid))
        return m is not None and self.dict_size(st.heap[m[0]]) != m[1] and \
            st.heap[v.oid].pos < len(st.heap[v.oid].items)

    def segments(self, st, v, fr, node, late=False):
        """Iterable value -> [(st, [V | Seg])] keeping unknown parts as segments."""
        if isinstance(v, TupleV):
            return [(st, list(v.items))]
        if isinstance(v, Const):
            if isinstance(v.v, (str, tuple, bytes)):
                return [(st, [Const(x) for x in v.v])]
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'not iterable: %r' % (v,)))]
        if isinstance(v, Sym):
            k = ('iterlen', v.key)
            if k in st.facts:
                return [(st, self.elems(v, st.facts[k]))]
            return [(st, [Seg(v)])]
        if isinstance(v, Ref):
            self.refresh_view(st, v)
            h = st.heap[v.oid]
            if isinstance(h, HList):
                return [(st, list(h.items))]
            if isinstance(h, HDict):
                l = [e[0] for e in h.entries if e[1] is not DELETED]
                if h.base is not None:
                    l = [Seg(Sym(('keys', h.base)))] + l
                return [(st, l)]
            if isinstance(h, HIter):
                if h.lazy is not None:
                    return [r for s in self.force(st, v, fr, node)
                            for r in self.segments(s, v, fr, node, late)]
                if self.stale_iter(st, v):
                    return [(st, self.raise_(st, 'builtins.RuntimeError', node, fr,
                                             'dictionary changed size during iteration'))]
                h = st.heap[v.oid]
                items = list(h.items[h.pos:])
                st.heap[v.oid] = HIter(h.items, len(h.items))
                if h.err is not None:
                    return [(st, items + [Raise(h.err)] if late else Raise(h.err))]
                return [(st, items)]
            if isinstance(h, HObj):
                if isinstance(h.cls, ClassInfo) and self.find_member(h.cls, '__iter__'):
                    return self.bind(self.call_method(st, v, '__iter__', [], {}, fr, node),
                                     lambda s, r: self.drain(s, r, fr, node) if r.key == v.key
                                     else self.segments(s, r, fr, node))
                if isinstance(h.cls, ClassInfo) and not h.cls.ext_bases():
                    return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                             '%s object is not iterable' % h.cls.name))]
                return [(st, [Seg(Sym(('iter', v.key)))])]
        if isinstance(v, ClassV) and self.is_enum(v.ci):
            return self.enum_values(st, v.ci, fr, node)
        if isinstance(v, (FuncV, BoundV, ClassV, ModV)):
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'not iterable'))]
        return [(st, [Seg(Sym(('iter', v.key)))])]

    def drain(self, st, v, fr, node):
        """All there is left of an iterator written in the program."""
        out = []
        live = [(st, [])]
        for i in range(60):
            nxt = []
            for s0, got in live:
                for s, x in self.call_method(s0, v, '__next__', [], {}, fr, node):
                    if not isinstance(x, Raise):
                        nxt.append((s, got + [x]))
                    elif self.exc_name(s, x.exc) == 'builtins.StopIteration':
                        out.append((s, got))
                    else:
                        out.append((s, x))
            live = nxt
        self.cut += len(live)
        return out

    def iter_values(self, st, v, fr, node, late=False):
        """-> [(st, [V] | Raise)] fully materialised; late: what is raised comes after the items
        that were yielded."""
        out = []
        for s, segs in self.segments(st, v, fr, node, late):
            if isinstance(segs, Raise):
                out.append((s, segs))
            else:
                out.extend(self.materialise(s, segs))
        return out

    def e_Dict(self, n, st, fr):
        outs = [(st, [], None)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, ents, base in outs:
                if isinstance(ents, Raise):
                    nxt.append((s, ents, base))
                    continue
                if k is None:
                    for s2, d in self.ev_(v, s, fr):
                        if isinstance(d, Raise):
                            nxt.append((s2, d, None))
                        elif isinstance(d, Ref) and isinstance(s2.heap[d.oid], HDict):
                            h = s2.heap[d.oid]
                            if h.base is not None:
                                if base is None and not ents:
                                    nxt.append((s2, list(h.entries), h.base))
                                else:
                                    nxt.append((s2, list(h.entries), ('merge', base, tuple(
                                        (a.key, b.key) for a, b in ents), h.base)))
                            else:
                                nxt.append((s2, ents + [e for e in h.entries if e[1] is not DELETED],
                                            base))
                        else:
                            nxt.append((s2, list(ents), ('merge', base, tuple(
                                (a.key, b.key) for a, b in ents), d.key) if (base or ents) else d.key))
                else:
                    for s2, kv in self.ev_list([k, v], s, fr):
                        if isinstance(kv, Raise):
                            nxt.append((s2, kv, None))
                        else:
                            nxt.append((s2, ents + [(kv[0], kv[1])], base))
            outs = nxt
        res = []
        for s, ents, base in outs:
            if isinstance(ents, Raise):
                res.append((s, ents))
            else:
                d = {}
                for k, v in ents:
                    d[k.key] = (k, v)
                res.append((s, s.alloc(HDict(d.values(), base))))
        return res

    def e_JoinedStr(self, n, st, fr):
        outs = [(st, [])]
        for p in n.values:
            nxt = []
            for s, l in outs:
                if isinstance(l, Raise):
                    nxt.append((s, l))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((s, l + [Const(p.value)]))
                else:
                    for s2, v in self.ev_(p.value, s, fr):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                            continue
                        if p.format_spec is None and p.conversion in (-1, 115):
                            for s3, sv in self.to_str(s2, v, fr, n):
                                nxt.append((s3, sv if isinstance(sv, Raise) else l + [sv]))
                        elif p.format_spec is None and p.conversion == 114:
                            for s3, sv in self.ext.b_repr(self, [v], {}, s2, fr, n):
                                nxt.append((s3, sv if isinstance(sv, Raise) else l + [sv]))
                        elif isinstance(v, Const) and p.conversion == -1 and p.format_spec and all(
                                isinstance(x, ast.Constant) for x in p.format_spec.values):
                            sp = ''.join(x.value for x in p.format_spec.values)
                            try:
                                nxt.append((s2, l + [Const(format(v.v, sp))]))
                            except Exception as e:
                                nxt.append((s2, self.raise_(s2, 'builtins.' + type(e).__name__, n,
                                                            fr, str(e))))
                        else:
                            spec = ast.unparse(p.format_spec) if p.format_spec else ''
                            nxt.append((s2, l + [Sym(('fmtv', v.key, p.conversion, spec),
                                                     types=frozenset(['builtins.str']))]))
            outs = nxt
        res = []
        for s, l in outs:
            if isinstance(l, Raise):
                res.append((s, l))
            else:
                res.append((s, self.concat(l)))
        return res

    def concat(self, parts):
        """String concatenation in normal form."""
        flat = []
        for p in parts:
            if isinstance(p, Const) and isinstance(p.v, str):
                if p.v == '':
                    continue
                if flat and isinstance(flat[-1], Const):
                    flat[-1] = Const(flat[-1].v + p.v)
                else:
                    flat.append(p)
            elif isinstance(p, Sym) and p.key[0] == 'concat':
                sub = []
                for k in p.key[1:]:
                    sub.append(Const(k[2]) if k[0] == 'c' else Sym(k, types=frozenset(['builtins.str'])))
                for q in sub:
                    if isinstance(q, Const) and flat and isinstance(flat[-1], Const):
                        flat[-1] = Const(flat[-1].v + q.v)
                    else:
                        flat.append(q)
            else:
                flat.append(p)
        if not flat:
            return Const('')
        if len(flat) == 1:
            return flat[0]
        return Sym(('concat',) + tuple(f.key for f in flat), types=frozenset(['builtins.str']))

    def to_str(self, st, v, fr, node):
        if isinstance(v, Const):
            return [(st, Const(str(v.v)))]
        if isinstance(v, Sym):
            if v.types == frozenset(['builtins.str']) or self.decide(
                    st, ('isinstance', v.key, 'builtins.str')):
                return [(st, v)]
            return [(st, Sym(('pure', 'str', v.key), types=frozenset(['builtins.str'])))]
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if isinstance(h, HObj) and isinstance(h.cls, ClassInfo):
                for m in ('__str__', '__repr__'):
                    f = self.find_member(h.cls, m)
                    if f is not None:
                        return self.call_method(st, v, m, [], {}, fr, node)
            if isinstance(h, HObj) and 'args' in h.attrs and isinstance(h.attrs['args'], TupleV) \
                    and len(h.attrs['args'].items) == 1:
                return self.to_str(st, h.attrs['args'].items[0], fr, node)
            if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and all(
                    isinstance(c, ClassInfo) or c in PLAIN_BASES for c in h.cls.mro):
                return [(st, Const('<%s object at 0x%x>' % (h.cls.qual, 0x7f0000000000 + 16 * int(''.join(x for x in str(v.oid) if x.isdigit()) or 0))))]
            if isinstance(h, HList):
                try:
                    return [(st, Const(str(self.ext.to_py(st, v))))]
                except self.ext.NotPy:
                    pass
                return [(st, Sym(('strof', tuple(i.key for i in h.items)),
                                 types=frozenset(['builtins.str'])))]
        try:
            return [(st, Const(str(self.ext.to_py(st, v))))]
        except self.ext.NotPy:
            pass
        if isinstance(v, FuncV) and not isinstance(v.node, ast.Lambda):
            return [(st, Const('<function %s at 0x7f%010x>' % (v.node.name, 16 * v.node.lineno)))]
        return [(st, Sym(('pure', 'str', v.key), types=frozenset(['builtins.str'])))]

    def e_FormattedValue(self, n, st, fr):
        return self.bind(self.ev_(n.value, st, fr), lambda s, v: self.to_str(s, v, fr, n))

    def e_Lambda(self, n, st, fr):
        f = FuncV(n, fr.mod, fr.lexcls, fr.env, fr.qual + '.<lambda>', False, self.fn_serial(st, fr))
        return self.with_defaults(st, f, fr)

    def fn_serial(self, st, fr):
        if fr is None or fr.env is None:
            return None
        st.n += 1
        return st.n

    def with_defaults(self, st, f, fr):
        """Evaluate the default values where the function is defined."""
        a = f.node.args
        if f.env is None or not (a.defaults or a.kw_defaults):
            return [(st, f)]
        pos = [p.arg for p in a.posonlyargs + a.args]
        ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        ds = [(p, d) for p, d in ds if not isinstance(d, ast.Constant)]
        outs = [(st, f)]
        for p, d in ds:
            nxt = []
            for s, x in outs:
                if isinstance(x, Raise):
                    nxt.append((s, x))
                    continue
                for s2, v in self.ev_(d, s, fr):
                    if not isinstance(v, Raise):
                        s2.heap[('default', f.key, p)] = v
                    nxt.append((s2, v if isinstance(v, Raise) else f))
            outs = nxt
        return outs

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev_(n.body if b else n.orelse, s, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)
        pend = [st]
        done = []
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in pend:
                for s2, v in self.ev_(x, s, fr):
                    if isinstance(v, Raise) or last:
                        done.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, fr, x):
                        if isinstance(b, Raise):
                            done.append((s3, b))
                        elif b == is_and:
                            nxt.append(s3)
                        else:
                            if isinstance(v, Sym) and v.key[0] in (
                                    'is', 'eq', 'lt', 'in', 'not', 'isinstance', 'hasattr'):
                                v2 = boolc(b)
                            else:
                                v2 = v
                            done.append((s3, v2))
            pend = nxt
        return done

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            def go(s, v):
                if isinstance(v, Sym):
                    d = self.decide(s, ('truthy', v.key))
                    if d is not None:
                        return [(s, boolc(not d))]
                    k = v.key
                    if k[0] == 'not':
                        return [(s, Sym(k[1] if k[1][0] != 'truthy' else k[1]))]
                    if k[0] not in ('is', 'eq', 'lt', 'in', 'isinstance', 'hasattr'):
                        k = ('truthy', k)
                    return [(s, Sym(('not', k)))]
                return [(s2, b if isinstance(b, Raise) else boolc(not b))
                        for s2, b in self.truth(s, v, fr, n)]
            return self.bind(self.ev_(n.operand, st, fr), go)

        def go2(s, v):
            if isinstance(v, Const):
                if isinstance(n.op, ast.USub):
                    return [(s, Const(-v.v))]
                if isinstance(n.op, ast.UAdd):
                    return [(s, v)]
                return [(s, Const(~v.v))]
            return [(s, Sym(('un', type(n.op).__name__, v.key)))]
        return self.bind(self.ev_(n.operand, st, fr), go2)

    def e_BinOp(self, n, st, fr):
        op = BINOPS[type(n.op)]
        return self.bind(self.ev_list([n.left, n.right], st, fr),
                         lambda s, l: self.binop(op, l[0], l[1], s, fr, n))

    def is_strish(self, st, v):
        if isinstance(v, Const):
            return isinstance(v.v, str)
        if isinstance(v, Sym):
            return v.types == frozenset(['builtins.str']) or bool(
                self.decide(st, ('isinstance', v.key, 'builtins.str')))
        return False

    def percent(self, fmt, b, st, fr, node):
        """fmt % b, for the formats %s %d %r of known values: [(st, V)] or None."""
        parts = re.split(r'(%[a-zA-Z%])', fmt)
        if any('%' in x for x in parts[::2]):
            parts = None
        args = list(b.items) if isinstance(b, TupleV) else [b]
        if parts is None or not isinstance(b, TupleV) and isinstance(b, (Ref, Sym)) and \
                parts[1::2].count('%%') != len(parts[1::2]) - 1:
            try:
                v = self.ext.to_py(st, b)
                return [(st, Const(fmt % v))]
            except self.ext.NotPy:
                return None
            except Exception as e:
                return [(st, self.raise_(st, 'builtins.' + type(e).__name__, node, fr, str(e)))]
        n = len([p for p in parts[1::2] if p != '%%'])
        if any(isinstance(x, (Seg, StarA)) for x in args):
            return None
        if n != len(args):
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                     'not all arguments converted during string formatting'
                                     if n < len(args) else 'not enough arguments for format string'))]
        outs = [(st, [])]
        rest = list(args)
        for i, p in enumerate(parts):
            if i % 2 == 0 or p == '%%':
                x = Const(p if i % 2 == 0 else '%')
                outs = [(s, l if isinstance(l, Raise) else l + [x]) for s, l in outs]
                continue
            v = rest.pop(0)
            nxt = []
            for s, l in outs:
                if isinstance(l, Raise):
                    nxt.append((s, l))
                    continue
                if p == '%s':
                    rs = self.to_str(s, v, fr, node)
                elif isinstance(v, Const):
                    try:
                        rs = [(s, Const(p % (v.v,)))]
                    except Exception as e:
                        rs = [(s, self.raise_(s, 'builtins.' + type(e).__name__, node, fr, str(e)))]
                else:
                    return None
                nxt.extend((s2, x if isinstance(x, Raise) else l + [x]) for s2, x in rs)
            outs = nxt
        return [(s, l if isinstance(l, Raise) else self.concat(
            [x for x in l if not (isinstance(x, Const) and x.v == '')] or [Const('')]))
            for s, l in outs]

    def binop(self, op, a, b, st, fr, node):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                r = {
                    '+': lambda: a.v + b.v, '-': lambda: a.v - b.v, '*': lambda: a.v * b.v,
                    '/': lambda: a.v / b.v, '//': lambda: a.v // b.v, '%': lambda: a.v % b.v,
                    '**': lambda: a.v ** b.v, '|': lambda: a.v | b.v, '&': lambda: a.v & b.v,
                    '^': lambda: a.v ^ b.v, '<<': lambda: a.v << b.v, '>>': lambda: a.v >> b.v,
                }[op]()
                return [(st, Const(r))]
            except KeyError:
                pass
            except Exception as e:
                return [(st, self.raise_(st, 'builtins.' + type(e).__name__, node, fr, str(e)))]
        if op == '|' and all(isinstance(x, (ClassV, GenV)) or isinstance(x, ExtV) and is_class_name(
                x.name) or x.key == NONE.key for x in (a, b)):
            return [(st, GenV('typing.Union', [
                y for x in (a, b) for y in (x.args if isinstance(x, GenV) and
                                            x.name == 'typing.Union' else [x])]))]
        if op in ('|', '&'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, Sym) and (
                        y.types == frozenset(['builtins.bool']) or y.key[0] in BOOLISH):
                    return [(st, y if x.v == (op == '&') else x)]
            if isinstance(a, Sym) and isinstance(b, Sym) and a.key[0] in BOOLISH and \
                    b.key[0] in BOOLISH:
                outs = []
                for s, r in self.branch(st, a.key):
                    outs.append((s, b if r == (op == '&') else Const(r)))
                return outs
        if op == '+':
            if self.is_strish(st, a) and self.is_strish(st, b):
                return [(st, self.concat([a, b]))]
            if (self.is_strish(st, a) and isinstance(b, Sym)) or (
                    self.is_strish(st, b) and isinstance(a, Sym)):
                return [(st, self.concat([a, b]))]
            la, lb = self.seq_items(st, a), self.seq_items(st, b)
            if la is not None and lb is not None and {self.seq_kind(st, a), self.seq_kind(st, b)} in (
                    {'list', 'tuple'}, {'list', 'deque'}, {'tuple', 'deque'}):
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'can only concatenate %s' %
                                         self.seq_kind(st, a)))]
            if la is not None and (lb is not None or isinstance(b, Sym)):
                if isinstance(a, TupleV):
                    return [(st, TupleV(list(la) + list(lb if lb is not None else [Seg(b)])))]
                return [(st, st.alloc(HList(list(la) + list(lb if lb is not None else [Seg(b)]))))]
            if lb is not None and isinstance(a, Sym):
                return [(st, st.alloc(HList([Seg(a)] + list(lb))))]
            if la is not None and isinstance(b, (Const, FuncV, BoundV)) or (
                    isinstance(a, Const) and a.v is None):
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'bad operand +'))]
        if op == '%' and isinstance(a, Const) and isinstance(a.v, str):
            r = self.percent(a.v, b, st, fr, node)
            if r is not None:
                return r
        if op == '%' and isinstance(a, Const) and isinstance(a.v, (str, bytes)):
            return [(st, Sym(('fmt', a.key, b.key), types=frozenset(
                ['builtins.str' if isinstance(a.v, str) else 'builtins.bytes'])))]
        if op == '*' and self.seq_items(st, a) is not None and isinstance(b, Const):
            return [(st, st.alloc(HList(list(self.seq_items(st, a)) * b.v)))]
        if op in ('-', '|', '&', '^') and isinstance(a, Ref) and isinstance(st.heap[a.oid], HList):
            lb = self.seq_items(st, b)
            la = st.heap[a.oid].items
            if lb is not None and not any(isinstance(x, Seg) for x in list(la) + list(lb)):
                ka, kb = {x.key for x in la}, {x.key for x in lb}
                if op == '-':
                    r = [x for x in la if x.key not in kb]
                elif op == '|':
                    r = list(la) + [x for x in lb if x.key not in ka]
                elif op == '&':
                    r = [x for x in la if x.key in kb]
                else:
                    r = [x for x in la if x.key not in kb] + [x for x in lb if x.key not in ka]
                return [(st, st.alloc(HList(r, 'set')))]
        if op == '|' and isinstance(a, Ref) and isinstance(st.heap[a.oid], HDict) and \
                isinstance(b, Ref) and isinstance(st.heap[b.oid], HDict):
            h = st.heap[a.oid]
            r = st.alloc(HDict(h.entries, h.base))
            return [(s, x if isinstance(x, Raise) else r) for s, x in self.call(
                BuiltinM(r, 'update'), [b], {}, st, fr, node)]
        if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
            if op != '|':
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                         'unsupported operand None for %s' % op))]
        for x, y, m in ((a, b, {'+': '__add__', '-': '__sub__', '/': '__truediv__', '|': '__or__'}),
                        (b, a, {'+': '__radd__', '-': '__rsub__'})):
            if op in m and isinstance(x, Ref) and isinstance(st.heap[x.oid], HObj) and \
                    isinstance(st.heap[x.oid].cls, ClassInfo) and \
                    self.find_member(st.heap[x.oid].cls, m[op]):
                return self.call_method(st, x, m[op], [y], {}, fr, node)
        return [(st, Sym(('bin', op, a.key, b.key)))]

    def seq_items(self, st, v):
        if isinstance(v, TupleV):
            return v.items
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HList):
            return st.heap[v.oid].items
        return None

    def e_Compare(self, n, st, fr):
        outs = []
        pend = []
        for s, v in self.ev_(n.left, st, fr):
            if isinstance(v, Raise):
                outs.append((s, v))
            else:
                pend.append((s, v))
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            last = i == len(n.ops) - 1
            nxt = []
            for s, a in pend:
                for s2, b in self.ev_(c, s, fr):
                    if isinstance(b, Raise):
                        outs.append((s2, b))
                        continue
                    for s3, r in self.compare(op, a, b, s2, fr, n):
                        if isinstance(r, Raise) or last:
                            outs.append((s3, r))
                        else:
                            for s4, t in self.truth(s3, r, fr):
                                if isinstance(t, Raise) or not t:
                                    outs.append((s4, FALSE if t is False else t))
                                else:
                                    nxt.append((s4, b))
            pend = nxt
        return outs

    def neg(self, v):
        if isinstance(v, Const):
            return boolc(not v.v)
        k = v.key
        if k[0] == 'not':
            return Sym(k[1])
        if k[0] not in ('is', 'eq', 'lt', 'in', 'isinstance', 'hasattr', 'truthy'):
            k = ('truthy', k)
        return Sym(('not', k))

    def compare(self, op, a, b, st, fr, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return [(st, self.neg(r) if isinstance(op, ast.IsNot) else r)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return [(s, r if isinstance(r, Raise) else self.neg(r) if isinstance(op, ast.NotEq) else r)
                    for s, r in self.eq_(a, b, st, fr, node)]
        if isinstance(op, (ast.In, ast.NotIn)):
            return [(s, r if isinstance(r, Raise) else self.neg(r) if isinstance(op, ast.NotIn) else r)
                    for s, r in self.in_(a, b, st, fr, node)]
        # ordering
        if isinstance(a, Ref) or isinstance(b, Ref):
            a, b = self.enum_raw(st, a), self.enum_raw(st, b)
        swap = isinstance(op, (ast.Gt, ast.LtE))
        neg = isinstance(op, (ast.GtE, ast.LtE))
        x, y = (b, a) if swap else (a, b)
        if isinstance(x, Const) and isinstance(y, Const):
            try:
                r = x.v < y.v
            except TypeError as e:
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, str(e)))]
            return [(st, boolc(r != neg))]
        for z in (x, y):
            if isinstance(z, Const) and z.v is None:
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'None in comparison'))]
            if isinstance(z, Sym) and self.decide(st, ('is', z.key, NONE.key)):
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'None in comparison'))]
        d = self.decide(st, ('lt', x.key, y.key))
        if d is not None:
            return [(st, boolc(d != neg))]
        meth = {ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}[type(op)]
        other = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[meth]
        for z, w, mm in ((a, b, meth), (b, a, other)):
            if self.descriptor(st, z, mm):
                return self.call_method(st, z, mm, [w], {}, fr, node)
        la, lb = self.seq_items(st, a), self.seq_items(st, b)
        if la is not None and lb is not None and not any(
                isinstance(i, Seg) for i in list(la) + list(lb)) and self.seq_kind(
                    st, a) == self.seq_kind(st, b) == 'set':
            l, r = {i.key for i in la}, {i.key for i in lb}
            return [(st, boolc({'__lt__': l < r, '__gt__': l > r, '__le__': l <= r,
                                '__ge__': l >= r}[meth]))]
        if la is not None and lb is not None and all(
                isinstance(i, Const) for i in list(la) + list(lb)) and self.seq_kind(st, a) in (
                    'list', 'tuple') and self.seq_kind(st, a) == self.seq_kind(st, b):
            try:
                l, r = [i.v for i in la], [i.v for i in lb]
                return [(st, boolc({'__lt__': l < r, '__gt__': l > r, '__le__': l <= r,
                                    '__ge__': l >= r}[meth]))]
            except TypeError as e:
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, str(e)))]
        r = Sym(('lt', x.key, y.key))
        return [(st, self.neg(r) if neg else r)]

    def is_(self, a, b, st):
        if a.key == b.key:
            return TRUE
        if isinstance(a, Const) and isinstance(b, Const):
            return boolc(a.v is b.v if (a.v is None or b.v is None or isinstance(a.v, bool) or
                                        isinstance(b.v, bool)) else a.v == b.v)
        if isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, Const) and o.v is None and s.nonnull:
                return FALSE
            if s.key[0] in ('is', 'eq', 'lt', 'in', 'not', 'isinstance', 'hasattr') and \
                    isinstance(o, Const):
                if o.v is True:
                    return s
                if o.v is False:
                    return self.neg(s)
                return FALSE
            if isinstance(o, Ref):
                h = st.heap.get(o.oid)
                if isinstance(h, (HList, HDict, HIter)):
                    pass
            if isinstance(o, Const):
                k = ('is', s.key, o.key)
            else:
                k = ('is',) + tuple(sorted((s.key, o.key), key=repr))
            d = self.decide(st, k)
            return boolc(d) if d is not None else Sym(k)
        return FALSE

    def eq_(self, a, b, st, fr, node):
        if a.key == b.key:
            return [(st, TRUE)]
        if isinstance(a, Ref) or isinstance(b, Ref):
            a, b = self.enum_raw(st, a), self.enum_raw(st, b)
            if a.key == b.key:
                return [(st, TRUE)]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, boolc(a.v == b.v))]
        if signum(a) is not None and signum(b) is not None:
            return [(st, boolc(signum(a) == signum(b)))]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st.heap[x.oid], HObj):
                h = st.heap[x.oid]
                if isinstance(h.cls, ClassInfo) and self.find_member(h.cls, '__eq__'):
                    return self.call_method(st, x, '__eq__', [y], {}, fr, node)
        la, lb = self.seq_items(st, a), self.seq_items(st, b)
        if la is not None and lb is not None:
            ka, kb = self.seq_kind(st, a), self.seq_kind(st, b)
            if ka != kb and ka is not None and kb is not None and not (
                    # a driver does not care which kind of sequence it was given
                    {ka, kb} == {'list', 'tuple'} and fr is not None and
                    fr.mod.name.startswith('drv.')):
                return [(st, FALSE)]
            if not any(isinstance(i, Seg) for i in list(la) + list(lb)):
                if ka == 'set' or kb == 'set':
                    return self.set_eq(st, la, lb, fr, node)
                if len(la) != len(lb):
                    return [(st, FALSE)]
                outs = []
                pend = [st]
                for x, y in zip(la, lb):
                    nxt = []
                    for s in pend:
                        for s2, r in self.eq_(x, y, s, fr, node):
                            if isinstance(r, Raise):
                                outs.append((s2, r))
                                continue
                            for s3, t in self.truth(s2, r, fr):
                                if t is True:
                                    nxt.append(s3)
                                else:
                                    outs.append((s3, FALSE))
                    pend = nxt
                return outs + [(s, TRUE) for s in pend]
        if la is not None and isinstance(b, Const) or lb is not None and isinstance(a, Const):
            return [(st, FALSE)]
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, Const) and o.v is None:
                return [(st, self.is_(s, o, st))]
            if isinstance(o, Const) and isinstance(o.v, str) and s.key[0] == 'concat' and any(
                    k[0] == 'c' and k[2] not in o.v for k in s.key[1:]):
                return [(st, FALSE)]
            if isinstance(o, Const) and s.types and all(
                    t.startswith('builtins.') for t in s.types):
                ts = [getattr(builtins, t[9:], None) for t in s.types]
                if not any(isinstance(t, type) and isinstance(o.v, t) or t in (int, float) and
                           isinstance(o.v, (int, float)) for t in ts):
                    return [(st, FALSE)]
            k = ('eq',) + tuple(sorted((a.key, b.key), key=repr))
            d = self.decide(st, k)
            return [(st, boolc(d) if d is not None else Sym(k))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = st.heap[a.oid], st.heap[b.oid]
            if isinstance(ha, HDict) and isinstance(hb, HDict):
                if ha.base == hb.base and {k.key: v.key for k, v in ha.entries} == {
                        k.key: v.key for k, v in hb.entries}:
                    return [(st, TRUE)]
                if ha.base is None and hb.base is None:
                    if {k.key for k, v in ha.entries} != {k.key for k, v in hb.entries} and all(
                            isinstance(k, Const) for k, v in ha.entries + hb.entries):
                        return [(st, FALSE)]
                    if {k.key for k, v in ha.entries} == {k.key for k, v in hb.entries}:
                        other = {k.key: v for k, v in hb.entries}
                        outs = []
                        pend = [st]
                        for x, y in [(v, other[k.key]) for k, v in ha.entries]:
                            nxt = []
                            for s in pend:
                                for s2, r in self.eq_(x, y, s, fr, node):
                                    if isinstance(r, Raise):
                                        outs.append((s2, r))
                                        continue
                                    for s3, t in self.truth(s2, r, fr):
                                        if t is True:
                                            nxt.append(s3)
                                        else:
                                            outs.append((s3, FALSE))
                            pend = nxt
                        return outs + [(s, TRUE) for s in pend]
                k = ('eq',) + tuple(sorted((('dict', ha.base, tuple((x.key, y.key) for x, y in ha.entries)),
                                            ('dict', hb.base, tuple((x.key, y.key) for x, y in hb.entries))),
                                           key=repr))
                d = self.decide(st, k)
                return [(st, boolc(d) if d is not None else Sym(k))]
            if isinstance(ha, HObj) and isinstance(hb, HObj):
                if isinstance(ha.cls, ClassInfo) and isinstance(hb.cls, ClassInfo):
                    return [(st, FALSE)]
                if not isinstance(ha.cls, ClassInfo) and not isinstance(hb.cls, ClassInfo):
                    k = ('eq',) + tuple(sorted((a.key, b.key), key=repr))
                    if ha.cls in ('asyncio.Future', 'asyncio.Task', 'builtins.object') or \
                            hb.cls in ('asyncio.Future', 'asyncio.Task', 'builtins.object'):
                        return [(st, FALSE)]
                    d = self.decide(st, k)
                    return [(st, boolc(d) if d is not None else Sym(k))]
            return [(st, FALSE)]
        return [(st, FALSE)]

    def in_iter(self, a, b, st, fr, node):
        """a in an iterator, which is asked no further than to the item."""
        def body(s, x):
            out = []
            for s2, r in self.eq_(x, a, s, fr, node):
                if isinstance(r, Raise):
                    out.append((s2, ('raise', r.exc)))
                    continue
                for s3, t in self.truth(s2, r, fr):
                    out.append((s3, BREAK if t is True else NORMAL))
            return out
        return [(s, FALSE if o is NORMAL else TRUE if o is BREAK else Raise(o[1]))
                for s, o in self.iterate(st, b, fr, node, body)]

    def seq_kind(self, st, v):
        if isinstance(v, TupleV):
            return 'tuple'
        k = st.heap[v.oid].kind
        if k == 'frozenset' or ('view', v.oid) in st.meta and st.meta[('view', v.oid)][0] in ('keys', 'items'):
            return 'set'
        return k if k in ('list', 'set', 'deque', 'tuple') else None

    def set_eq(self, st, la, lb, fr, node):
        if {x.key for x in la} == {x.key for x in lb}:
            return [(st, TRUE)]
        if all(isinstance(x, Const) for x in list(la) + list(lb)):
            return [(st, boolc({x.v for x in la} == {x.v for x in lb}))]
        if len(la) != len(lb):
            return [(st, FALSE)]
        outs, pend = [], [st]
        lst = TupleV(lb)
        for x in la:
            nxt = []
            for s in pend:
                for s2, r in self.in_(x, lst, s, fr, node):
                    if isinstance(r, Raise):
                        outs.append((s2, r))
                        continue
                    for s3, t in self.truth(s2, r, fr):
                        if t is True:
                            nxt.append(s3)
                        else:
                            outs.append((s3, FALSE))
            pend = nxt
        return outs + [(s, TRUE) for s in pend]

    def in_(self, a, b, st, fr, node):
        items = self.seq_items(st, b)
        if isinstance(b, Sym) and b.key[0] == 'concat':
            parts = [k for k in b.key[1:]]
            if isinstance(a, Const) and isinstance(a.v, str) and any(
                    k[0] == 'c' and isinstance(k[2], str) and a.v in k[2] for k in parts):
                return [(st, TRUE)]
            if isinstance(a, Sym) and a.key in parts:
                return [(st, TRUE)]
        if isinstance(b, Const) and isinstance(b.v, (str, bytes)):
            if isinstance(a, Const):
                try:
                    return [(st, boolc(a.v in b.v))]
                except TypeError as e:
                    return [(st, self.raise_(st, 'builtins.TypeError', node, fr, str(e)))]
            k = ('in', a.key, b.key)
            d = self.decide(st, k)
            return [(st, boolc(d) if d is not None else Sym(k))]
        if isinstance(b, Const) and isinstance(b.v, (tuple, frozenset)):
            items = [Const(x) for x in b.v]
        if isinstance(b, Const) and items is None:
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                     'argument of type %s is not iterable' % type(b.v).__name__))]
        if isinstance(b, Ref) and items is None:
            h = st.heap[b.oid]
            if isinstance(h, HDict):
                return [(s, TRUE if f else FALSE) for s, f, _ in self.dict_find(st, b, a, fr, node)]
            if isinstance(h, HObj):
                if isinstance(h.cls, ClassInfo):
                    if self.find_member(h.cls, '__contains__'):
                        return self.call_method(st, b, '__contains__', [a], {}, fr, node)
                    if self.find_member(h.cls, '__iter__'):
                        out = []
                        for s, l in self.iter_values(st, b, fr, node):
                            if isinstance(l, Raise):
                                out.append((s, l))
                            else:
                                out.extend(self.in_(a, TupleV(l), s, fr, node))
                        return out
            if isinstance(h, HIter):
                return self.in_iter(a, b, st, fr, node)
        if items is not None:
            outs = []
            pend = [st]
            segs = []
            for x in items:
                if isinstance(x, Seg):
                    segs.append(x)
                    continue
                nxt = []
                for s in pend:
                    for s2, r in self.eq_(x, a, s, fr, node):
                        if isinstance(r, Raise):
                            outs.append((s2, r))
                            continue
                        for s3, t in self.truth(s2, r, fr):
                            if t is True:
                                outs.append((s3, TRUE))
                            else:
                                nxt.append(s3)
                pend = nxt
            for s in pend:
                res = FALSE
                if segs:
                    k = ('in', a.key, segs[0].src.key)
                    d = self.decide(s, k)
                    res = boolc(d) if d is not None else Sym(k)
                outs.append((s, res))
            return outs
        k = ('in', a.key, b.key)
        d = self.decide(st, k)
        return [(st, boolc(d) if d is not None else Sym(k))]

    # ------------------------------------------------------------------ dictionaries
    def dict_find(self, st, ref, key, fr, node):
        """-> [(st, found bool, value)]"""
        h = st.heap[ref.oid]
        outs = []
        pend = [st]
        for k, v in h.entries:
            nxt = []
            for s in pend:
                if k.key == key.key:
                    outs.append((s, v is not DELETED, v))
                    continue
                for s2, r in self.eq_(k, key, s, fr, node):
                    if isinstance(r, Raise):
                        continue
                    for s3, t in self.truth(s2, r, fr):
                        if t is True:
                            outs.append((s3, v is not DELETED, v))
                        else:
                            nxt.append(s3)
            pend = nxt
        for s in pend:
            if h.base is None:
                outs.append((s, False, None))
            else:
                for s2, b in self.branch(s, ('has', h.base, key.key)):
                    t = {'types': frozenset(['builtins.str'])} if h.base == ('environ0',) else {}
                    outs.append((s2, b, Sym(('item', h.base, key.key), **t) if b else None))
        return outs

    def dict_set(self, st, ref, key, val, fr=None, node=None):
        """In place (on st's heap); maybe-equal keys are assumed distinct unless facts say equal."""
        h = st.heap[ref.oid]
        ents = []
        done = False
        for k, v in h.entries:
            same = k.key == key.key or signum(k) is not None and signum(k) == signum(key)
            if not same and not (isinstance(k, Const) and isinstance(key, Const)):
                kk = ('eq',) + tuple(sorted((k.key, key.key), key=repr))
                same = bool(self.decide(st, kk))
            if same:
                if v is DELETED:
                    continue        # re-inserted keys move to the end
                ents.append((k, val))
                done = True
            else:
                ents.append((k, v))
        if not done:
            ents.append((key, val))
        st.heap[ref.oid] = HDict(ents, h.base, h.factory, h.kind)
        if h.kind == 'objdict' and isinstance(key, Const):
            ob = st.heap[h.factory].copy()
            ob.attrs[key.v] = val
            st.heap[h.factory] = ob

    def dict_del(self, st, ref, key):
        h = st.heap[ref.oid]
        if h.kind == 'objdict' and isinstance(key, Const):
            ob = st.heap[h.factory].copy()
            ob.attrs.pop(key.v, None)
            st.heap[h.factory] = ob
        ents = [(k, v) for k, v in h.entries if k.key != key.key and (
            signum(k) is None or signum(k) != signum(key)) and not (
            not (isinstance(k, Const) and isinstance(key, Const)) and
            self.decide(st, ('eq',) + tuple(sorted((k.key, key.key), key=repr))))]
        if h.base is not None:
            ents.append((key, DELETED))
        st.heap[ref.oid] = HDict(ents, h.base, h.factory, h.kind)

    # ------------------------------------------------------------------ items
    def load_item(self, st, b, i, fr, node):
        if isinstance(b, ClassV) and self.is_enum(b.ci) and isinstance(i, Const):
            if i.v in self.enum_names(b.ci):
                return self.class_attr(st, b, i.v, fr, node)
            return [(st, self.raise_(st, 'builtins.KeyError', node, fr, i.v))]
        if isinstance(b, (ClassV, ExtV)):
            if isinstance(b, ExtV) and b.name in self.ext.SUBSCRIPT_EVENTS:
                self.ev('call', b.name + '.__getitem__', st, node, fr, recv=b, args=(i,))
            if isinstance(b, ExtV) and b.name == 'signal.Signals' and isinstance(i, Const) and isinstance(
                    getattr(_signal, str(i.v), None), _signal.Signals):
                return [(st, ExtV('signal.' + i.v))]
            if isinstance(b, ExtV) and b.name in GENERICS:
                return [(st, GenV(b.name, i.items if isinstance(i, TupleV) else [i]))]
            return [(st, b)]
        if isinstance(b, Const) and isinstance(b.v, (str, bytes, tuple)):
            idx = self.const_index(i)
            if idx is not None:
                try:
                    return [(st, Const(b.v[idx]))]
                except Exception as e:
                    return [(st, self.raise_(st, 'builtins.' + type(e).__name__, node, fr, str(e)))]
            return [(st, Sym(('item', b.key, i.key)))]
        if isinstance(b, Const):
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                     '%s object is not subscriptable' % type(b.v).__name__))]
        items = self.seq_items(st, b)
        if items is not None:
            idx = self.const_index(i)
            if idx is not None:
                out = []
                need = any(isinstance(x, Seg) for x in items)
                for s, l in (self.materialise(st, items) if need and not self.pure_prefix(
                        items, idx) else [(st, list(items))]):
                    try:
                        r = l[idx]
                    except IndexError as e:
                        out.append((s, self.raise_(s, 'builtins.IndexError', node, fr, str(e))))
                        continue
                    if isinstance(idx, slice):
                        r = TupleV(r) if isinstance(b, TupleV) else s.alloc(
                            HList(r, 'list' if not isinstance(b, Ref) else s.heap[b.oid].kind))
                    out.append((s, r))
                return out
            if isinstance(i, Const):
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'bad index'))]
            return [(st, Sym(('item', b.key, i.key)))]
        if isinstance(b, Ref):
            h = st.heap[b.oid]
            if isinstance(h, HDict):
                out = []
                for s, f, v in self.dict_find(st, b, i, fr, node):
                    if f:
                        out.append((s, v))
                    elif h.factory is not None and h.kind != 'objdict':
                        def ins(s2, nv):
                            self.dict_set(s2, b, i, nv)
                            return [(s2, nv)]
                        out.extend(self.bind(self.call(h.factory, [], {}, s, fr, node), ins))
                    else:
                        x = self.raise_(s, 'builtins.KeyError', node, fr, '')
                        s.heap[x.exc.oid].attrs['args'] = TupleV([i])
                        out.append((s, x))
                return out
            if isinstance(h, HObj):
                if isinstance(h.cls, ClassInfo) and self.find_member(h.cls, '__getitem__'):
                    return self.call_method(st, b, '__getitem__', [i], {}, fr, node)
                if isinstance(h.cls, ClassInfo) and not h.cls.ext_bases():
                    return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                             '%s object is not subscriptable' % h.cls.name))]
        c = Call('.__getitem__', None, b, '__getitem__', [i], {}, node, fr)
        r = self.run_hook(c, st)
        if r is not None:
            return r
        key = ('item', b.key, i.key)
        ov = st.heap.get(('symitems', b.key))
        if ov is not None:
            for k, v in ov:
                if k.key == i.key:
                    return [(st, v)]
        return [(st, Sym(key))]

    def pure_prefix(self, items, idx):
        if isinstance(idx, int) and idx >= 0:
            return idx < len(items) and not any(isinstance(x, Seg) for x in items[:idx + 1])
        if isinstance(idx, int):
            return -idx <= len(items) and not any(isinstance(x, Seg) for x in items[idx:])
        if isinstance(idx, slice) and idx.step in (None, 1):
            a, b = idx.start, idx.stop
            if b is None and (a is None or (a >= 0 and not any(isinstance(x, Seg) for x in items[:a])
                                            and a <= len(items))):
                return True
        return False

    def const_index(self, i):
        if isinstance(i, Const) and isinstance(i.v, int):
            return int(i.v)
        if isinstance(i, TupleV) and i.items and isinstance(i.items[0], Const) and \
                i.items[0].v == 'slice' and len(i.items) == 4 and all(
                    isinstance(x, Const) for x in i.items[1:]):
            return slice(*[x.v for x in i.items[1:]])
        return None

    def store_item(self, st, b, i, v, fr, node):
        """-> outcomes"""
        self.ev('setitem', 'setitem', st, node, fr, recv=b, args=(i, v))
        if isinstance(b, Ref):
            h = st.heap[b.oid]
            if isinstance(h, HDict):
                if h.kind == 'environ':
                    if isinstance(v, Const) and not isinstance(v.v, str):
                        r = self.raise_(st, 'builtins.TypeError', node, fr, 'str expected')
                        return [(st, ('raise', r.exc))]
                self.dict_set(st, b, i, v)
                return [(st, NORMAL)]
            if isinstance(h, HList):
                idx = self.const_index(i)
                if idx is not None and not any(isinstance(x, Seg) for x in h.items):
                    l = list(h.items)
                    try:
                        if isinstance(idx, slice):
                            seg = self.seq_items(st, v)
                            if seg is None:
                                seg = [Seg(v)]
                            l[idx] = list(seg)
                        else:
                            l[idx] = v
                    except IndexError as e:
                        r = self.raise_(st, 'builtins.IndexError', node, fr, str(e))
                        return [(st, ('raise', r.exc))]
                    st.heap[b.oid] = HList(l, h.kind)
                elif isinstance(idx, slice) and idx == slice(None, None, None):
                    seg = self.seq_items(st, v)
                    st.heap[b.oid] = HList(seg if seg is not None else [Seg(v)], h.kind)
                return [(st, NORMAL)]
            if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and \
                    self.find_member(h.cls, '__setitem__'):
                return self.on(self.call_method(st, b, '__setitem__', [i, v], {}, fr, node),
                               lambda s, r: [(s, NORMAL)])
            return [(st, NORMAL)]
        if isinstance(b, Sym):
            ov = st.heap.get(('symitems', b.key), ())
            st.heap[('symitems', b.key)] = tuple(e for e in ov if e[0].key != i.key) + ((i, v),)
        return [(st, NORMAL)]

    def del_item(self, st, b, i, fr, node):
        self.ev('delitem', 'delitem', st, node, fr, recv=b, args=(i,))
        if isinstance(b, Ref):
            h = st.heap[b.oid]
            if isinstance(h, HDict):
                out = []
                for s, f, v in self.dict_find(st, b, i, fr, node):
                    if f:
                        self.dict_del(s, b, i)
                        out.append((s, NORMAL))
                    else:
                        r = self.raise_(s, 'builtins.KeyError', node, fr, '')
                        out.append((s, ('raise', r.exc)))
                return out
            if isinstance(h, HList):
                idx = self.const_index(i)
                if idx is not None:
                    l = list(h.items)
                    try:
                        del l[idx]
                    except IndexError as e:
                        r = self.raise_(st, 'builtins.IndexError', node, fr, str(e))
                        return [(st, ('raise', r.exc))]
                    st.heap[b.oid] = HList(l, h.kind)
                return [(st, NORMAL)]
            if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and \
                    self.find_member(h.cls, '__delitem__'):
                return self.on(self.call_method(st, b, '__delitem__', [i], {}, fr, node),
                               lambda s, r: [(s, NORMAL)])
        return [(st, NORMAL)]

    # ------------------------------------------------------------------ attributes
    def load_attr_on(self, st, v, name, fr):
        r = self.load_attr(st, v, name, fr, None)
        return r[0][1]

    def load_attr(self, st, b, name, fr, node):
        """-> [(st, V|Raise)]"""
        if name == '__class__' and not isinstance(b, ClassV):
            return [(st, self.type_of(st, b))]
        if isinstance(b, Ref):
            h = st.heap[b.oid]
            if isinstance(h, HObj):
                return self.obj_attr(st, b, h, name, fr, node)
            if name == '__class__':
                return [(st, self.type_of(st, b))]
            pt = {HList: {'list': list, 'set': set}.get(getattr(h, 'kind', ''), None),
                  HDict: dict}.get(type(h))
            if pt is not None and getattr(h, 'kind', '') in ('list', 'set', 'dict') and \
                    not hasattr(pt, name) and name != 'move_to_end':
                return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                         '%s object has no attribute %r' % (pt.__name__, name)))]
            return [(st, BuiltinM(b, name))]
        if isinstance(b, Sym):
            return self.sym_attr(st, b, name, fr, node)
        if isinstance(b, Const):
            if name == '__class__':
                return [(st, self.type_of(st, b))]
            if not hasattr(b.v, name):
                return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                         '%s object has no attribute %r' % (type(b.v).__name__, name)))]
            data = getattr(b.v, name)
            if data is None or isinstance(data, (str, int, bytes)):
                return [(st, Const(data))]
            return [(st, BuiltinM(b, name))]
        if isinstance(b, TupleV):
            return [(st, BuiltinM(b, name))]
        if isinstance(b, ModV):
            e = st.heap.get('m:' + b.mi.name)
            if e is not None and name in e.vars:
                return [(st, e.vars[name])]
            if name not in b.mi.bindings and b.mi.name + '.' + name in self.model.modules:
                return [(st, ModV(self.model.modules[b.mi.name + '.' + name]))]
            if name in ('__name__', '__file__', '__dict__', '__doc__'):
                return [(st, Const(b.mi.name) if name == '__name__' else Sym(('attr', b.key, name)))]
            rs = self.mod_lookup(st, b.mi, name, fr, node)
            return rs
        if isinstance(b, ClassV):
            return self.class_attr(st, b, name, fr, node)
        if isinstance(b, GenV):
            if name == '__origin__':
                return [(st, ExtV(GENERICS[b.name]))]
            if name == '__args__':
                return [(st, TupleV(b.args))]
            return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                     '%r has no attribute %r' % (b, name)))]
        if isinstance(b, ExtV):
            if name in ('name', 'value') and b.name.startswith('signal.SIG') and signum(b) is not None:
                return [(st, Const(b.name[7:] if name == 'name' else signum(b)))]
            if b.name == 'signal.Signals' and isinstance(getattr(_signal, name, None), _signal.Signals):
                return [(st, ExtV('signal.' + name))]
            if name in ('__origin__', '__args__') and b.name.startswith(('builtins.', 'typing.')):
                if b.name in GENERICS and b.name.startswith('typing.') and name == '__origin__':
                    return [(st, ExtV(GENERICS[b.name]))]
                return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                         '%r has no attribute %r' % (b, name)))]
            if name == '__name__' and b.name in sys.stdlib_module_names:
                return [(st, Const(b.name))]
            if name in ('__name__', '__qualname__') and (
                    b.name.startswith('builtins.') and hasattr(builtins, b.name[9:]) or
                    b.name.rpartition('.')[2][:1].isupper()):
                return [(st, Const(b.name.rpartition('.')[2]))]
            ov = st.heap.get(('extset', norm_ext(b.name + '.' + name)))
            return [(st, ov if ov is not None else self.extval(b.name + '.' + name))]
        if isinstance(b, SuperV):
            return self.super_attr(st, b, name, fr, node)
        if isinstance(b, FuncV):
            if name in ('__name__', '__qualname__'):
                ov = st.heap.get(('fattrs', b.key), {})
                if name in ov:
                    return [(st, ov[name])]
                return [(st, Const(getattr(b.node, 'name', '<lambda>')))]
            ov = st.heap.get(('fattrs', b.key), {})
            if name in ov:
                return [(st, ov[name])]
            if name == '__doc__':
                return [(st, NONE if isinstance(b.node, ast.Lambda) else Const(ast.get_docstring(b.node, False)))]
            if name == '__module__':
                return [(st, Const(b.mod.name))]
            if name == '__dict__':
                return [(st, st.alloc(HDict([(Const(k), v) for k, v in ov.items() if k not in (
                    '__name__', '__qualname__', '__doc__', '__module__')])))]
            if name in ( '__wrapped__', '__annotations__',
                        '__defaults__', '__code__', '__call__', '__get__'):
                return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]
            return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                     'function has no attribute %r' % name))]
        if isinstance(b, BoundV):
            if name == '__self__':
                return [(st, b.selfv)]
            if name == '__func__':
                return [(st, b.fn)]
            return self.load_attr(st, b.fn, name, fr, node)
        if isinstance(b, PartialV):
            if name == 'func':
                return [(st, b.fn)]
            if name == 'args':
                return [(st, TupleV(b.args))]
            if name == 'keywords':
                return [(st, st.alloc(HDict([(Const(k), v) for k, v in b.kwargs.items()])))]
            ov = st.heap.get(('fattrs', b.key), {})
            if name in ov:
                return [(st, ov[name])]
            return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                     "'functools.partial' object has no attribute %r" % name))]
        if isinstance(b, CtxV) and name in ('__enter__', '__exit__'):
            raise Unsupported('%s of a generator context manager' % name)
        if isinstance(b, (CoroV, CtxV)):
            return [(st, BuiltinM(b, name))]
        return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]

    def sym_attr(self, st, b, name, fr, node):
        ov = st.heap.get(('symattrs', b.key))
        if ov and name in ov:
            return [(st, ov[name])]
        if b.key[0] == 'attr' and False:
            pass
        if self.decide(st, ('is', b.key, NONE.key)):
            if not hasattr(None, name):
                return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                         'None has no attribute %r' % name))]
        if b.cls is not None:
            m = self.find_member(b.cls, name)
            if m is not None:
                return self.member_value(st, b, b.cls, m, name, fr, node)
        if name == '__class__':
            return [(st, self.type_of(st, b))]
        if name == '__name__' and b.key[0] == 'type':
            return [(st, Sym(('typename', b.key[1]), types=frozenset(['builtins.str'])))]
        c = Call('.' + name, None, b, name, [], {}, node, fr)
        h = self.hooks.get('attr:' + name)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                return r
        key = ('attr', b.key, name)
        if st.epoch:
            key = ('attr', b.key, name, st.epoch)
        return [(st, Sym(key, recv=b, aname=name))]

    def obj_attr(self, st, b, h, name, fr, node):
        if isinstance(h.cls, ClassInfo):
            m = self.find_member(h.cls, name)
            dyn = self.dyn_member(st, h.cls, name, m)
            if dyn is not None:
                if self.is_property(st, dyn):
                    return self.call(st.heap[dyn.oid].attrs['fget'], [b], {}, st, fr, node)
                if name in h.attrs:
                    return [(st, h.attrs[name])]
                return [(st, BoundV(dyn, b) if isinstance(dyn, FuncV) else dyn)]
            if m is not None and self.is_data_desc(m):
                return self.member_value(st, b, h.cls, m, name, fr, node)
            if name in h.attrs:
                return [(st, h.attrs[name])]
            if m is not None:
                return self.member_value(st, b, h.cls, m, name, fr, node)
            if name == '__class__':
                return [(st, ClassV(h.cls))]
            if name == '__dict__':
                return [(st, st.alloc(HDict([(Const(k), v) for k, v in h.attrs.items()],
                                            factory=b.oid, kind='objdict')))]
            exts = h.cls.ext_bases()
            if exts:
                if name == 'args' and any(self.cls_sub(e, 'builtins.BaseException') for e in exts):
                    return [(st, TupleV([]))]
                return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]
            if name in ('__init_subclass__', '__reduce__', '__hash__', '__eq__', '__str__',
                        '__repr__', '__init__', '__doc__', '__module__', '__ne__', '__setattr__'):
                return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]
            g = self.find_member(h.cls, '__getattr__')
            if g is not None:
                return self.call_method(st, b, '__getattr__', [Const(name)], {}, fr, node)
            return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                     '%s object has no attribute %r' % (h.cls.name, name)))]
        if name in h.attrs:
            return [(st, h.attrs[name])]
        if name == '__class__':
            return [(st, ExtV(h.cls))]
        fn = self.ext.ATTRS.get((h.cls, name))
        if fn is not None:
            return fn(self, st, b, name, fr, node)
        return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]

    def dyn_member(self, st, ci, name, m):
        """A value that was assigned to an attribute of the class, unless one nearer is defined."""
        for c in ci.mro:
            if isinstance(c, ClassInfo):
                e = st.heap.get('ca:' + c.qual)
                if e is not None and name in e.vars:
                    if m is not None and m[0] is c and not isinstance(
                            m[1][-1], (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and \
                            not self.is_property(st, e.vars[name]):
                        return None
                    return e.vars[name]
                if m is not None and m[0] is c:
                    return None
        return None

    def is_property(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HObj) and \
            st.heap[v.oid].cls == 'builtins.property'

    def is_data_desc(self, m):
        n = m[1][0]
        return isinstance(n, ast.FunctionDef) and 'property' in self.deco_names(n)

    def member_value(self, st, b, ci, m, name, fr, node):
        """Value of class member m accessed through instance b."""
        owner, nodes = m
        n = nodes[0] if self.is_data_desc(m) else nodes[-1]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            ds = self.deco_names(n)
            f = self.method_func(st, owner, n)
            cached = any(d.endswith('cached_property') for d in ds)
            out = []
            for s, f in self.decorated(st, owner, n, f):
                if isinstance(f, Raise):
                    out.append((s, f))
                elif 'property' in ds or cached:
                    for s2, v in self.call(BoundV(f, b), [], {}, s, fr, node):
                        h = s2.heap[b.oid] if isinstance(b, Ref) else None
                        if cached and isinstance(h, HObj) and not isinstance(v, Raise):
                            h = h.copy()
                            h.attrs[name] = v
                            s2.heap[b.oid] = h
                        out.append((s2, v))
                elif 'staticmethod' in ds:
                    out.append((s, f))
                elif 'classmethod' in ds:
                    out.append((s, BoundV(f, ClassV(ci))))
                elif isinstance(f, FuncV):
                    out.append((s, BoundV(f, b)))
                else:
                    out.append((s, BoundV(f, b) if self.is_cached_function(s, f) else f))
            return out
        if isinstance(n, ast.ClassDef):
            return [(st, ClassV(self.model.cls(owner.mod, n, owner.qual + '.' + n.name)))]
        out = []
        for s, v in self.class_attr(st, ClassV(ci), name, fr, node):
            if self.is_property(s, v):
                out.extend(self.call(s.heap[v.oid].attrs['fget'], [b], {}, s, fr, node))
            elif self.descriptor(s, v, '__get__'):
                out.extend(self.call_method(s, v, '__get__', [b, ClassV(ci)], {}, fr, node))
            else:
                out.append((s, BoundV(v, b) if isinstance(v, FuncV) else v))
        return out

    def descriptor(self, st, v, name):
        h = st.heap.get(v.oid) if isinstance(v, Ref) else None
        return isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and \
            self.find_member(h.cls, name) is not None

    def is_cached_function(self, st, v):
        h = st.heap.get(v.oid) if isinstance(v, Ref) else None
        return isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and \
            h.cls.qual == 'drv.prelude.CachedFunction'

    def decorated(self, st, owner, n, f):
        """What the program's own decorators make of a method: [(st, v)]."""
        ds = []
        for d in n.decorator_list:
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if nm.split('.')[-1] in PLAIN_DECORATORS or nm.startswith('expose_'):
                continue
            r = self.model.static_resolve(owner.mod, d.func if isinstance(d, ast.Call) else d)
            if isinstance(r, (tuple, ClassInfo)) or isinstance(r, str) and r in PRELUDE or \
                    'cenv:' + owner.qual in st.heap and not isinstance(r, str):
                ds.append(d)
        if not ds:
            return [(st, f)]
        k = ('deco', owner.qual, n.name, n.lineno)
        if k in st.heap:
            return [(st, st.heap[k])]
        out = [(st, f)]
        for d in reversed(ds):
            nxt = []
            for s, v in out:
                if isinstance(v, Raise):
                    nxt.append((s, v))
                    continue
                dfr = self.class_frame(s, owner)
                for s2, dv in self.ev_(d, s, dfr):
                    nxt.extend([(s2, dv)] if isinstance(dv, Raise) else
                               self.call(dv, [v], {}, s2, dfr, d))
            out = nxt
        for s, v in out:
            if not isinstance(v, Raise):
                s.heap[k] = v
        return out

    def method_func(self, st, owner, n):
        env = 'cenv:' + owner.qual
        ctx = any(d.split('.')[-1] == 'contextmanager' for d in self.deco_names(n))
        return FuncV(n, owner.mod, owner, env if env in st.heap else None,
                     owner.qual + '.' + n.name, ctxmgr=ctx)

    def class_attr(self, st, b, name, fr, node):
        ci = b.ci
        if name == '__name__' or name == '__qualname__':
            return [(st, Const(ci.name))]
        if name == '__module__' and not ('ca:' + ci.qual in st.heap and name in st.heap['ca:' + ci.qual].vars):
            return [(st, Const(ci.mod.name))]
        if name == '__mro__':
            return [(st, TupleV([ClassV(c) if isinstance(c, ClassInfo) else ExtV(norm_ext(c))
                                 for c in ci.mro]))]
        if name == '__class__':
            return [(st, ExtV('builtins.type'))]
        for c in ci.mro:
            if not isinstance(c, ClassInfo):
                continue
            e = st.heap.get('ca:' + c.qual)
            if e is not None and name in e.vars:
                return [(st, e.vars[name])]
            if name in c.members:
                ns = c.members[name]
                n = ns[0] if self.is_data_desc((c, ns)) else ns[-1]
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self.method_func(st, c, n)
                    return [(s, BoundV(f, b) if 'classmethod' in self.deco_names(n) and
                             not isinstance(f, Raise) else f)
                            for s, f in self.decorated(st, c, n, f)]
                if isinstance(n, ast.ClassDef):
                    return [(st, ClassV(self.model.cls(c.mod, n, c.qual + '.' + n.name)))]
                mfr = self.mod_frame(st, c.mod)
                mfr.lexcls = c
                # names of earlier class attributes are visible in the class body
                out = []
                for s, v in self.ev_(n[1], st, self.class_frame(st, c)):
                    if isinstance(v, Raise):
                        v = Sym(('s', c.qual + '.' + name))
                    if self.is_enum(c) and not name.startswith('_'):
                        if isinstance(v, Sym) and v.key[:2] == ('call', 'auto') or \
                                isinstance(v, Ref) and isinstance(s.heap[v.oid], HObj) and \
                                s.heap[v.oid].cls == 'enum.auto':
                            v = Const(self.enum_names(c).index(name) + 1) if not c.is_sub(
                                'builtins.str') else Const(name.lower())
                        v = s.alloc(HObj(c, {'name': Const(name), 'value': v, '_name_': Const(name),
                                             '_value_': v}), 'E')
                    elif self.descriptor(s, v, '__set_name__'):
                        for s2, r in self.call_method(s, v, '__set_name__', [ClassV(c), Const(name)],
                                                      {}, fr, node):
                            s = s2
                    ce = s.heap.get('ca:' + c.qual)
                    nv = dict(ce.vars) if ce else {}
                    nv[name] = v
                    s.heap['ca:' + c.qual] = HEnv(nv, None, None)
                    out.append((s, v))
                return out
        if ci.ext_bases():
            return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]
        if name in ('__init__', '__new__', '__doc__', '__dict__', '__subclasses__', 'mro', '__bases__',
                    '__eq__', '__hash__', '__repr__', '__str__'):
            return [(st, Sym(('attr', b.key, name), recv=b, aname=name))]
        return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                 'type object %s has no attribute %r' % (ci.name, name)))]

    def is_enum(self, ci):
        return any(not isinstance(x, ClassInfo) and x in (
            'enum.Enum', 'enum.IntEnum', 'enum.StrEnum') for x in ci.mro)

    def enum_names(self, ci):
        return [n for n, ns in ci.members.items() if not n.startswith('_') and
                isinstance(ns[-1], tuple) and ns[-1][0] == 'assign']

    def enum_values(self, st, ci, fr, node):
        """The members of an enumeration: [(st, [V])]."""
        outs = [(st, [])]
        for n in self.enum_names(ci):
            outs = [(s2, l + [v]) for s, l in outs
                    for s2, v in self.class_attr(s, ClassV(ci), n, fr, node)]
        return outs

    def enum_raw(self, st, v):
        """The number or text a member of such an enumeration is."""
        h = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and '_value_' in h.attrs and \
                self.is_enum(h.cls) and (h.cls.is_sub('builtins.int') or h.cls.is_sub('builtins.str')):
            return h.attrs['_value_']
        return v

    def class_frame(self, st, ci):
        oid = 'clsf:' + ci.qual
        local = st.heap.get('cenv:' + ci.qual)
        up = local.parent if local is not None else None
        fr = Frame(ci.qual + '.<body>', ci.mod, ci, oid, None, None, None)
        vars = {}
        for nm, ns in ci.members.items():
            if isinstance(ns[-1], (ast.FunctionDef, ast.AsyncFunctionDef)):
                vars[nm] = self.method_func(st, ci, ns[-1])
        e = st.heap.get('ca:' + ci.qual)
        if e:
            vars.update(e.vars)
        st.heap[oid] = HEnv(vars, up, None)
        return fr

    def super_attr(self, st, b, name, fr, node):
        sv = b.selfv
        ci = None
        if isinstance(sv, Ref) and isinstance(st.heap[sv.oid], HObj) and isinstance(
                st.heap[sv.oid].cls, ClassInfo):
            ci = st.heap[sv.oid].cls
        elif isinstance(sv, ClassV):
            ci = sv.ci
        elif isinstance(sv, Sym) and sv.cls is not None:
            ci = sv.cls
        mro = ci.mro if ci is not None and b.cls in ci.mro else b.cls.mro
        after = mro[mro.index(b.cls) + 1:]
        for c in after:
            if isinstance(c, ClassInfo) and name in c.members:
                m = (c, c.members[name])
                if isinstance(sv, ClassV):
                    n = c.members[name][-1]
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = self.method_func(st, c, n)
                        ds = self.deco_names(n)
                        if 'classmethod' in ds or name in ('__init_subclass__', '__class_getitem__'):
                            return [(st, BoundV(f, sv))]
                        if 'staticmethod' in ds or sv.ci in b.cls.mro or b.cls in sv.ci.mro:
                            return [(st, f)]
                        return [(st, BoundV(f, sv))]
                return self.member_value(st, sv, ci or b.cls, m, name, fr, node)
            if name == '__new__' and not isinstance(c, ClassInfo):
                return [(st, ExtV('builtins.object.__new__'))]
            if not isinstance(c, ClassInfo) and self.cls_sub(c, 'builtins.BaseException') and \
                    name in ('__init__', '__str__') and isinstance(sv, Ref):
                return [(st, BuiltinM(sv, 'exc.' + name))]
            if not isinstance(c, ClassInfo) and c not in PLAIN_BASES:
                return [(st, Sym(('superattr', b.key, name), recv=sv, aname='super.' + name))]
        if name in ('__init__', '__init_subclass__', '__setattr__', '__enter__', '__exit__', '__new__'):
            return [(st, ExtV('builtins.object.' + name))]
        if name in ('__repr__', '__str__', '__eq__', '__hash__', '__new__'):
            return [(st, Sym(('superattr', b.key, name), recv=sv, aname='super.' + name))]
        return [(st, self.raise_(st, 'builtins.AttributeError', node, fr,
                                 "'super' object has no attribute %r" % name))]

    def store_attr(self, st, b, name, v, fr, node):
        """-> outcomes"""
        self.ev('setattr', name, st, node, fr, recv=b, args=(v,))
        if isinstance(b, Ref):
            h = st.heap[b.oid]
            if isinstance(h, HObj):
                if isinstance(h.cls, ClassInfo):
                    m = self.find_member(h.cls, name)
                    if m is not None and self.is_data_desc(m):
                        for n in m[1]:
                            if any(d.endswith('.setter') for d in self.deco_names(n)):
                                f = self.method_func(st, m[0], n)
                                return self.on(self.call(BoundV(f, b), [v], {}, st, fr, node),
                                               lambda s, r: [(s, NORMAL)])
                        r = self.raise_(st, 'builtins.AttributeError', node, fr,
                                        "property %r has no setter" % name)
                        return [(st, ('raise', r.exc))]
                    if m is not None and isinstance(m[1][-1], tuple) and isinstance(m[1][-1][1], ast.Call):
                        for s, dv in self.class_attr(st, ClassV(h.cls), name, fr, node):
                            if self.descriptor(s, dv, '__set__'):
                                return self.on(self.call_method(s, dv, '__set__', [b, v], {}, fr, node),
                                               lambda s2, r: [(s2, NORMAL)])
                    sm = self.find_member(h.cls, '__setattr__')
                    if sm is not None:
                        f = self.method_func(st, sm[0], sm[1][-1])
                        if not (fr and fr.qual == f.qual):
                            return self.on(self.call(BoundV(f, b), [Const(name), v], {}, st, fr, node),
                                           lambda s, r: [(s, NORMAL)])
                h = h.copy()
                h.attrs[name] = v
                st.heap[b.oid] = h
            return [(st, NORMAL)]
        if isinstance(b, Sym):
            if b.cls is not None:
                m = self.find_member(b.cls, name)
                if m is not None and self.is_data_desc(m):
                    for n in m[1]:
                        if any(d.endswith('.setter') for d in self.deco_names(n)):
                            f = self.method_func(st, m[0], n)
                            return self.on(self.call(BoundV(f, b), [v], {}, st, fr, node),
                                           lambda s, r: [(s, NORMAL)])
            ov = dict(st.heap.get(('symattrs', b.key), {}))
            ov[name] = v
            st.heap[('symattrs', b.key)] = ov
            return [(st, NORMAL)]
        if isinstance(b, ClassV):
            ce = st.heap.get('ca:' + b.ci.qual)
            nv = dict(ce.vars) if ce else {}
            nv[name] = v
            st.heap['ca:' + b.ci.qual] = HEnv(nv, None, None)
            return [(st, NORMAL)]
        if isinstance(b, ModV):
            self.mod_set(st, b.mi, name, v)
            return [(st, NORMAL)]
        if isinstance(b, (FuncV, PartialV)):
            ov = dict(st.heap.get(('fattrs', b.key), {}))
            ov[name] = v
            st.heap[('fattrs', b.key)] = ov
            return [(st, NORMAL)]
        if isinstance(b, ExtV):
            name = norm_ext(b.name + '.' + name)
            st.heap[('extset', name)] = None if isinstance(v, ExtV) and v.name == name else v
        return [(st, NORMAL)]

    # ------------------------------------------------------------------ types
    def type_of(self, st, v):
        if isinstance(v, ExtV) and v.name.startswith('signal.SIG'):
            return ExtV('signal.Signals')
        if isinstance(v, Const):
            return ExtV('builtins.' + type(v.v).__name__)
        if isinstance(v, TupleV):
            return ExtV('builtins.tuple')
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if isinstance(h, HList):
                return ExtV({'deque': 'collections.deque'}.get(h.kind, 'builtins.' + h.kind))
            if isinstance(h, HDict):
                return ExtV({'environ': 'os._Environ'}.get(h.kind, 'builtins.dict'))
            if isinstance(h, HObj):
                return ClassV(h.cls) if isinstance(h.cls, ClassInfo) else ExtV(h.cls)
        if isinstance(v, (FuncV, BoundV)):
            return ExtV('types.FunctionType')
        if isinstance(v, Sym):
            if v.types and len(v.types) == 1:
                t = next(iter(v.types))
                ci = self.class_by_qual(t)
                return ClassV(ci) if ci is not None else ExtV(t)
            return Sym(('type', v.key), nonnull=True)
        return Sym(('type', v.key), nonnull=True)

    def isinstance_(self, st, v, tv, fr, node):
        """-> [(st, bool|Raise)]"""
        items = self.seq_items(st, tv)
        if items is not None:
            outs = []
            pend = [st]
            for t in items:
                nxt = []
                for s in pend:
                    for s2, b in self.isinstance_(s, v, t, fr, node):
                        if b is False:
                            nxt.append(s2)
                        else:
                            outs.append((s2, b))
                pend = nxt
            return outs + [(s, False) for s in pend]
        if isinstance(tv, ClassV):
            tn = tv.ci.qual
        elif isinstance(tv, ExtV):
            tn = norm_ext(tv.name)
        elif isinstance(tv, GenV):
            if tv.name not in ('typing.Union', 'typing.Optional'):
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                         'isinstance() with a subscripted generic'))]
            return self.isinstance_(st, v, TupleV(tv.args + (
                (NONE,) if tv.name == 'typing.Optional' else ())), fr, node)
        elif isinstance(tv, Const) and tv.v is None:
            tn = 'builtins.NoneType'
        elif isinstance(tv, Sym) and tv.key[0] == 'type':
            if tv.key[1] == v.key:
                return [(st, True)]
            return self.branch(st, ('isinstance', v.key, repr(tv.key)))
        else:
            return self.branch(st, ('isinstance', v.key, repr(tv.key)))
        if tn in ('builtins.object', 'typing.Any'):
            return [(st, True)]
        if isinstance(v, Sym):
            if v.types:
                rs = [self.cls_sub(t, tn) for t in v.types]
                if all(rs):
                    return [(st, True)]
                if not any(rs):
                    return [(st, False)]
            if v.key[0] in ('is', 'eq', 'lt', 'in', 'not', 'isinstance', 'hasattr'):
                return [(st, tn in ('builtins.bool', 'builtins.int'))]
            return self.branch(st, ('isinstance', v.key, tn))
        if isinstance(v, Const):
            T = getattr(builtins, tn[9:], None) if tn.startswith('builtins.') else None
            if tn == 'builtins.NoneType':
                return [(st, v.v is None)]
            if isinstance(T, type):
                return [(st, isinstance(v.v, T))]
            if tn.startswith('collections.abc.'):
                import collections.abc
                T = getattr(collections.abc, tn[16:], None)
                if T is not None:
                    return [(st, isinstance(v.v, T))]
            return [(st, False)]
        if isinstance(v, TupleV):
            return [(st, tn in ('builtins.tuple',) or ext_is_sub('builtins.tuple', tn))]
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if isinstance(h, HList):
                k = 'builtins.' + h.kind if h.kind != 'deque' else 'collections.deque'
                if h.kind == 'deque' and tn.startswith('collections.abc.'):
                    return [(st, tn[16:] in ('Iterable', 'Collection', 'Sequence', 'MutableSequence',
                                             'Container', 'Sized', 'Reversible'))]
                return [(st, ext_is_sub(k, tn))]
            if isinstance(h, HDict):
                return [(st, ext_is_sub('builtins.dict', tn))]
            if isinstance(h, HIter):
                return [(st, tn in ('collections.abc.Iterable', 'collections.abc.Iterator',
                                    'types.GeneratorType', 'collections.abc.Generator'))]
            if isinstance(h, HObj):
                if isinstance(h.cls, ClassInfo):
                    if h.cls.is_sub(tn):
                        return [(st, True)]
                    if tn.startswith('collections.abc.'):
                        need = {'Iterable': '__iter__', 'Callable': '__call__', 'Hashable': '__hash__',
                                'Sized': '__len__', 'Iterator': '__next__',
                                'Container': '__contains__'}.get(tn[16:])
                        if need:
                            return [(st, need == '__hash__' or
                                     self.find_member(h.cls, need) is not None)]
                    return [(st, False)]
                return [(st, ext_is_sub(h.cls, tn))]
        if isinstance(v, (FuncV, BoundV, PartialV, BuiltinM)):
            return [(st, tn in ('types.FunctionType', 'collections.abc.Callable', 'types.MethodType',
                                'collections.abc.Hashable'))]
        if isinstance(v, (ClassV,)):
            return [(st, tn in ('builtins.type', 'collections.abc.Callable'))]
        if isinstance(v, CoroV):
            return [(st, tn in ('collections.abc.Coroutine', 'collections.abc.Awaitable'))]
        if isinstance(v, ExtV):
            last = v.name.split('.')[-1]
            member = getattr(_signal, last, None) if v.name == 'signal.' + last else None
            if isinstance(member, int):
                return [(st, tn in ['%s.%s' % (c.__module__, c.__name__) for c in
                                    type(member).__mro__])]
            if last[:1].isupper() or v.name.startswith('builtins.') or \
                    tn.startswith('builtins.') or tn.startswith('collections.abc.'):
                return [(st, tn == 'collections.abc.Callable' or
                         tn == 'builtins.type' and is_class_name(v.name))]
            return self.branch(st, ('isinstance', v.key, tn))
        return [(st, False)]

    # ------------------------------------------------------------------ comprehensions
    def comp(self, n, st, fr, elt):
        """-> [(st, [values]|Raise)]"""
        env = self.new_env(st, fr.env, None)
        f2 = Frame(fr.qual, fr.mod, fr.lexcls, env, None, fr.selfv, fr.up)
        f2.gen, f2.yieldh = fr.gen, fr.yieldh
        outs = [(st, [])]

        def gen(i, s, acc):
            """-> [(s, acc')]"""
            if i == len(n.generators):
                return [(s2, v if isinstance(v, Raise) else acc + [v]) for s2, v in elt(s, f2)]
            g = n.generators[i]
            res = []
            for s2, it in self.ev_(g.iter, s, fr if i == 0 else f2):
                if isinstance(it, Raise):
                    res.append((s2, it))
                    continue
                for s3, items in self.iter_values(s2, it, fr, g.iter):
                    if isinstance(items, Raise):
                        res.append((s3, items))
                        continue
                    live = [(s3, acc)]
                    for x in items:
                        nxt = []
                        for s4, a in live:
                            if isinstance(a, Raise):
                                nxt.append((s4, a))
                                continue
                            for s5, o in self.assign(g.target, x, s4, f2):
                                if o is not NORMAL:
                                    nxt.append((s5, Raise(o[1])))
                                    continue
                                pend = [s5]
                                for c in g.ifs:
                                    p2 = []
                                    for s6 in pend:
                                        for s7, b in self.cond(c, s6, f2):
                                            if isinstance(b, Raise):
                                                nxt.append((s7, b))
                                            elif b:
                                                p2.append(s7)
                                            else:
                                                nxt.append((s7, a))
                                    pend = p2
                                for s6 in pend:
                                    nxt.extend(gen(i + 1, s6, a))
                        live = nxt
                        if len(live) > self.max_paths:
                            raise Budget('paths in comprehension')
                    res.extend(live)
            return res
        return gen(0, st, [])

    def e_ListComp(self, n, st, fr):
        if not self._simple_map(n):
            pass
        return self.bind(self.comp(n, st, fr, lambda s, f: self.ev_(n.elt, s, f)),
                         lambda s, l: [(s, s.alloc(HList(l)))])

    def _simple_map(self, n):
        return False

    def e_SetComp(self, n, st, fr):
        return self.bind(self.comp(n, st, fr, lambda s, f: self.ev_(n.elt, s, f)),
                         lambda s, l: [(s, s.alloc(HList(self.dedup(l), 'set')))])

    def e_GeneratorExp(self, n, st, fr):
        if any(g.is_async for g in n.generators) or any(
                isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return self.bind(self.comp(n, st, fr, lambda s, f: self.ev_(n.elt, s, f)),
                             lambda s, l: [(s, s.alloc(HIter(l)))])
        d = self.model.genexps.get(id(n))
        if d is None:
            body = ast.Expr(ast.Yield(n.elt))
            for i, g in reversed(list(enumerate(n.generators))):
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                body = ast.For(g.target, g.iter if i else ast.Name('.0', ast.Load()), [body], [])
            d = ast.FunctionDef('<genexpr>', ast.arguments(
                [], [ast.arg('.0')], None, [], [], None, []), [body], [], None)
            d.type_params = []
            for x in ast.walk(d):
                if 'lineno' in x._attributes and getattr(x, 'lineno', None) is None:
                    ast.copy_location(x, n)
            self.model.genexps[id(n)] = d

        def go(s, v):
            f = FuncV(d, fr.mod, fr.lexcls, fr.env, fr.qual + '.<genexpr>', False, None)
            env = self.new_env(s, f.env, self.model.finfo(d), {'.0': v})
            return [(s, s.alloc(HIter((), lazy=('gen', f, env, fr.selfv))))]
        out = []
        for s, v in self.ev_(n.generators[0].iter, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, r in self.check_iterable(s, v, fr, n):
                out.extend([(s2, r)] if isinstance(r, Raise) else go(s2, v))
        return out

    def check_iterable(self, st, v, fr, n):
        """What cannot be iterated over is refused when the generator is made."""
        if isinstance(v, Const) and not isinstance(v.v, (str, tuple, bytes)) or \
                isinstance(v, (FuncV, BoundV, ModV)) or isinstance(v, ClassV) and not self.is_enum(v.ci):
            return self.segments(st, v, fr, n)
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], HObj):
            h = st.heap[v.oid]
            if isinstance(h.cls, ClassInfo) and not self.find_member(h.cls, '__iter__') and \
                    not h.cls.ext_bases():
                return self.segments(st, v, fr, n)
        return [(st, NONE)]

    def e_DictComp(self, n, st, fr):
        def elt(s, f):
            return [(s2, v if isinstance(v, Raise) else TupleV(v))
                    for s2, v in self.ev_list([n.key, n.value], s, f)]

        def fin(s, l):
            d = s.alloc(HDict())
            for kv in l:
                self.dict_set(s, d, kv.items[0], kv.items[1])
            return [(s, d)]
        return self.bind(self.comp(n, st, fr, elt), fin)

    def e_Starred(self, n, st, fr):
        return self.ev_(n.value, st, fr)

    # ------------------------------------------------------------------ await / yield
    def e_Await(self, n, st, fr):
        return self.bind(self.ev_(n.value, st, fr), lambda s, v: self.await_(s, v, fr, n))

    def await_(self, st, v, fr, node):
        if isinstance(v, CoroV):
            return self.run_coro(st, v, fr, node)
        if isinstance(v, Sym) and v.origin is not None and isinstance(v.origin, Ev):
            # awaiting asyncio.wait_for(coro()) etc: the coroutine runs inside
            coros = [a for a in v.origin.args if isinstance(a, CoroV)]
            if coros and v.origin.target in ('asyncio.wait_for', 'asyncio.shield', 'asyncio.gather',
                                             'asyncio.ensure_future'):
                outs = [(st, NONE)]
                for c in coros:
                    nxt = []
                    for s, r in outs:
                        if isinstance(r, Raise):
                            nxt.append((s, r))
                        else:
                            nxt.extend(self.run_coro(s, c, fr, node))
                    outs = nxt
                return outs
        c = Call('await', None, v, 'await', [v], {}, node, fr)
        e = self.ev('await', 'await', st, node, fr, recv=v)
        st.epoch += 1
        self.ext.on_await(self, st, v)
        c.cont = lambda s: self.await_plain(s, v, c, fr, node)
        h = self.run_hook(c, st)
        if h is not None:
            return h
        return c.cont(st)

    def await_plain(self, st, v, c, fr, node):
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), HObj):
            ho = st.heap[v.oid]
            if ho.cls == 'asyncio.Task' and isinstance(ho.attrs.get('coro'), CoroV) and \
                    'ran' not in ho.attrs and ho.attrs['fstate'].v in ('pending', 'unknown'):
                ho = ho.copy()
                ho.attrs['ran'] = TRUE
                st.heap[v.oid] = ho
                res = []
                for s, r in self.run_coro(st, ho.attrs['coro'], fr, node):
                    self.ext.fut_set(s, v, 'done', **({'exc': r.exc} if isinstance(r, Raise)
                                                      else {'result': r}))
                    res.append((s, r))
                return res
            if isinstance(ho.cls, ClassInfo) and self.find_member(ho.cls, '__await__'):
                return self.bind(self.call_method(st, v, '__await__', [], {}, fr, node),
                                 lambda s, r: self.drive(s, r, None, fr, node))
        out = []
        if self.await_raises is not None:
            for en in self.await_raises(c) or ():
                s2 = st.copy()
                x = s2.alloc(HObj(en, {'args': TupleV([])}), 'x')
                self.ev('raise', en, s2, node, fr, result=x, data='injected at await')
                out.append((s2, Raise(x, node)))
        res = self.ext.await_result(self, st, v, fr, node)
        return out + res

    def run_coro(self, st, c, fr, node):
        return self.finish(self.run_body(c.fn, c.env, c.selfv, st, fr, node))

    def finish(self, outs):
        res = []
        for s, o in outs:
            if o is NORMAL:
                res.append((s, NONE))
            elif o[0] == 'ret':
                res.append((s, o[1]))
            elif o[0] == 'raise':
                res.append((s, Raise(o[1])))
            else:
                res.append((s, NONE))
        return res

    def e_Yield(self, n, st, fr):
        def go(s, v):
            if fr.yieldh is not None:
                return fr.yieldh(s, v, fr, n)
            if fr.gen is not None:
                h = s.heap[fr.gen]
                s.heap[fr.gen] = HList(h.items + (v,))
            self.ev('yield', 'yield', s, n, fr, args=(v,))
            return [(s, NONE)]
        if n.value is None:
            return go(st, NONE)
        return self.bind(self.ev_(n.value, st, fr), go)

    def e_YieldFrom(self, n, st, fr):
        def go(s, v):
            def body(s2, x):
                return [(s3, ('raise', r.exc) if isinstance(r, Raise) else NORMAL)
                        for s3, r in fr.yieldh(s2, x, fr, n)]
            if fr.yieldh is None:
                return [(s, NONE)]
            return [(s2, Raise(o[1]) if o is not NORMAL else NONE)
                    for s2, o in self.iterate(s, v, fr, n, body)]
        return self.bind(self.ev_(n.value, st, fr), go)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and fr.lexcls is not None:
            if not n.args:
                f = fr
                sv = self.frame_self(st, fr)
                return [(st, SuperV(fr.lexcls, sv))]
            return self.bind(self.ev_list(n.args, st, fr), lambda s, l: [(s, SuperV(
                l[0].ci if isinstance(l[0], ClassV) else fr.lexcls, l[1]))])

        def go(s, f):
            out = []
            if isinstance(f, ExtV) and f.name == 'sa_env.check':
                return self.intrinsics['check'](self, n, s, fr)
            for s2, a in self.args(n, s, fr):
                if isinstance(a, Raise):
                    out.append((s2, a))
                else:
                    out.extend(self.call(f, a[0], a[1], s2, fr, n))
            return out
        return self.bind(self.ev_(n.func, st, fr), go)

    def frame_self(self, st, fr):
        f = fr
        p = fr.env
        if fr.selfv is not None:
            return fr.selfv
        return NONE

    def args(self, n, st, fr):
        """-> [(st, (args, kwargs)) | (st, Raise)]"""
        outs = [(st, ([], {}))]
        for a in n.args:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev_(a.value, s, fr):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                            continue
                        for s3, segs in self.segments(s2, v, fr, a):
                            if isinstance(segs, Raise):
                                nxt.append((s3, segs))
                                continue
                            nxt.append((s3, (acc[0] + [StarA(x.src) if isinstance(x, Seg) else x
                                                       for x in segs], acc[1])))
                else:
                    for s2, v in self.ev_(a, s, fr):
                        nxt.append((s2, v if isinstance(v, Raise) else (acc[0] + [v], acc[1])))
            outs = nxt
        for k in n.keywords:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                for s2, v in self.ev_(k.value, s, fr):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    elif k.arg is not None:
                        if k.arg in acc[1]:
                            nxt.append((s2, self.raise_(s2, 'builtins.TypeError', n, fr,
                                                        'multiple values for keyword ' + k.arg)))
                        else:
                            nxt.append((s2, (acc[0], dict(acc[1], **{k.arg: v}))))
                    else:
                        kw = dict(acc[1])
                        dup = None
                        if isinstance(v, Ref) and isinstance(s2.heap[v.oid], HDict):
                            h = s2.heap[v.oid]
                            for kk, vv in h.entries:
                                if vv is DELETED:
                                    continue
                                if isinstance(kk, Const):
                                    if kk.v in kw:
                                        dup = kk.v
                                    kw[kk.v] = vv
                                else:
                                    kw.setdefault(None, []).append((kk, vv))
                            if h.base is not None:
                                kw[None] = kw.get(None, []) + [Sym(h.base)]
                        else:
                            kw[None] = kw.get(None, []) + [v]
                        if dup is not None:
                            nxt.append((s2, self.raise_(s2, 'builtins.TypeError', n, fr,
                                                        'multiple values for keyword ' + str(dup))))
                        else:
                            nxt.append((s2, (acc[0], kw)))
            outs = nxt
        return outs

    def hook_of(self, st, k):
        h = st.meta.get(('stub', k))
        return h if h is not None else self.hooks.get(k)

    def run_hook(self, call, st):
        for k in (call.target, '.' + call.name if call.name else None):
            if k is None:
                continue
            h = self.hook_of(st, k)
            if h is not None:
                r = h(self, st, call)
                if r is not None:
                    return r
        return None

    def call_method(self, st, recv, name, args, kwargs, fr, node):
        return self.bind(self.load_attr(st, recv, name, fr, node),
                         lambda s, f: self.call(f, args, kwargs, s, fr, node))

    def call(self, f, args, kwargs, st, fr, node):
        """-> [(st, V|Raise)]"""
        self.tick()
        args, kwargs = list(args), dict(kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, st, fr, node, None)
        if isinstance(f, BoundV):
            if isinstance(f.fn, FuncV):
                return self.call_func(f.fn, [f.selfv] + args, kwargs, st, fr, node, f.selfv)
            return self.call(f.fn, [f.selfv] + args, kwargs, st, fr, node)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + args, kw, st, fr, node)
        if isinstance(f, ClassV):
            return self.construct(f.ci, args, kwargs, st, fr, node)
        if isinstance(f, BuiltinM):
            return self.ext.builtin_method(self, f, args, kwargs, st, fr, node)
        if isinstance(f, GenV):
            f = ExtV(GENERICS[f.name])
        if isinstance(f, ExtV):
            return self.ext.call_ext(self, f.name, args, kwargs, st, fr, node)
        if isinstance(f, Sym):
            if self.decide(st, ('is', f.key, NONE.key)):
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr, 'None is not callable'))]
            return self.call_opaque(f, args, kwargs, st, fr, node)
        if isinstance(f, Ref):
            h = st.heap[f.oid]
            if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and \
                    self.find_member(h.cls, '__call__'):
                return self.call_method(st, f, '__call__', args, kwargs, fr, node)
            if isinstance(h, HObj) and not (isinstance(h.cls, ClassInfo) and not h.cls.ext_bases()):
                return self.call_opaque(Sym(('attr', f.key, '__call__'), recv=f, aname='__call__'),
                                        args, kwargs, st, fr, node)
        return [(st, self.raise_(st, 'builtins.TypeError', node, fr, '%r is not callable' % (f,)))]

    def call_opaque(self, f, args, kwargs, st, fr, node):
        """Call of an unknown callable (method of an unknown object, parameter, ...)."""
        if f.aname is not None:
            tgt, recv, name = '.' + f.aname, f.recv, f.aname
        else:
            tgt, recv, name = 'value', f, None
        c = Call(tgt, f, recv, name, args, kwargs, node, fr)
        self.callsites.add((fr.mod.path if fr and fr.mod else '', getattr(node, 'lineno', 0), tgt))
        m = self.ext.method_model(self, c, st)
        if m is not None:
            return m
        if name in ('acquire', 'release') and self.is_lock(recv, st) and not kwargs and (
                not args or args[0].key == TRUE.key and len(args) == 1):
            if name == 'acquire':
                self.ev('enter', 'with', st, node, fr, recv=recv)
                self.lock(st, recv.key)
                return [(st, TRUE)]
            if recv.key not in st.locks:
                return [(st, self.raise_(st, 'builtins.RuntimeError', node, fr, 'release of a lock not held'))]
            self.unlock(st, recv.key)
            self.ev('exit', 'with', st, node, fr, recv=recv)
            return [(st, NONE)]
        e = self.ev('call', tgt, st, node, fr, recv=recv, name=name, args=tuple(args), kwargs=kwargs)
        return self.opaque_result(c, e, st, fr, node)

    def opaque_result(self, c, e, st, fr, node, default=None):
        r = self.run_hook(c, st)
        if r is not None:
            for s, v in r:
                if not isinstance(v, Raise):
                    pass
            if len(r) == 1 and not isinstance(r[0][1], Raise):
                e.result = r[0][1]
            return r
        out = []
        for rf in self.raises:
            for en in rf(c) or ():
                s2 = st.copy()
                gen = en.endswith('*')
                x = s2.alloc(HObj(en.rstrip('*'), {'args': TupleV([Sym(('excarg', s2.n))])}), 'x')
                if gen:
                    s2.heap[x.oid].attrs['generic'] = TRUE
                self.ev('raise', en, s2, node, fr, result=x, data='injected from ' + c.target)
                out.append((s2, Raise(x, node)))
        if default is None and c.target.startswith('sa_env.'):
            raise Unsupported('intrinsic %s' % c.target)
        if default is None:
            if c.name in PURE_METHODS and isinstance(c.recv, V):
                v = Sym(('pure', '.' + c.name, c.recv.key) + tuple(a.key for a in c.args), origin=e)
            elif isinstance(c.recv, V) and c.name is not None:
                st.n += 1
                v = Sym(('call', '%s.%s' % (c.recv, c.name), st.n), origin=e)
            else:
                st.n += 1
                v = Sym(('call', repr(c.recv) if c.recv is not None else c.target, st.n), origin=e)
        else:
            v = default
        e.result = v
        if isinstance(v, Sym):
            self.callorigin[v.key] = c.target
        return out + [(st, v)]

    def construct(self, ci, args, kwargs, st, fr, node):
        c = Call('new:' + ci.qual, ClassV(ci), None, None, args, kwargs, node, fr)
        e = self.ev('new', ci.qual, st, node, fr, args=tuple(args), kwargs=kwargs)
        r = self.run_hook(c, st)
        if r is not None:
            return r
        if self.is_enum(ci) and len(args) == 1:
            out = []
            for s, l in self.enum_values(st, ci, fr, node):
                pend = [s]
                for x in l:
                    nxt = []
                    for s2 in pend:
                        for s3, r in self.eq_(s2.heap[x.oid].attrs['value'], args[0], s2, fr, node):
                            for s4, t in ([(s3, r)] if isinstance(r, Raise) else self.truth(s3, r, fr)):
                                if isinstance(t, Raise) or t is True:
                                    out.append((s4, x if t is True else t))
                                else:
                                    nxt.append(s4)
                    pend = nxt
                out.extend((s2, self.raise_(s2, 'builtins.ValueError', node, fr,
                                            'no valid %s' % ci.name)) for s2 in pend)
            return out
        if 'new:' + ci.qual in self.opaque or ci.qual in self.opaque:
            v = st.alloc(HObj(ci, {}), 'o')
            e.result = v
            return [(st, v)]
        missing = self.abstract_of(ci)
        if missing:
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                     "Can't instantiate abstract class %s without an implementation "
                                     "for abstract method %r" % (ci.name, missing[0])))]
        nw = self.find_member(ci, '__new__')
        if nw is not None:
            out = []
            for s, v in self.call_func(self.method_func(st, nw[0], nw[1][-1]), [ClassV(ci)] + args, kwargs,
                                       st, fr, node, ClassV(ci)):
                h = s.heap.get(v.oid) if isinstance(v, Ref) else None
                if isinstance(h, HObj) and isinstance(h.cls, ClassInfo) and ci in h.cls.mro:
                    e.result = v
                    for s2, r in self.bind(self.load_attr(s, v, '__init__', fr, node),
                                           lambda s3, f: self.call(f, args, kwargs, s3, fr, node)):
                        out.append((s2, r if isinstance(r, Raise) else v))
                else:
                    out.append((s, v))
            return out
        obj = st.alloc(HObj(ci, {}), 'o')
        e.result = obj
        m = self.find_member(ci, '__init__')
        if m is None:
            if any(self.cls_sub(b, 'builtins.BaseException') for b in ci.ext_bases()):
                st.heap[obj.oid].attrs['args'] = TupleV([a for a in args if isinstance(a, V)])
            if (args or kwargs) and not ci.ext_bases():
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                         '%s() takes no arguments' % ci.name))]
            return [(st, obj)]
        if any(self.cls_sub(b, 'builtins.BaseException') for b in ci.ext_bases()):
            st.heap[obj.oid].attrs['args'] = TupleV([a for a in args if isinstance(a, V)])
        f = self.method_func(st, m[0], m[1][-1])
        out = []
        for s, r in self.call_func(f, [obj] + args, kwargs, st, fr, node, obj):
            out.append((s, r if isinstance(r, Raise) else obj))
        return out

    def abstract_of(self, ci):
        """The abstract methods of a class that Python refuses to instantiate."""
        r = self.model.abstract.get(id(ci))
        if r is None:
            r = []
            if any(c == 'abc.ABC' or isinstance(c, ClassInfo) and any(
                    k.arg == 'metaclass' and ast.unparse(k.value).endswith('ABCMeta')
                    for k in c.node.keywords) for c in ci.mro):
                for c in ci.mro:
                    for n, ns in c.members.items() if isinstance(c, ClassInfo) else ():
                        m = self.find_member(ci, n)
                        if m is not None and any(d.split('.')[-1].startswith('abstract')
                                                 for d in self.deco_names(m[1][-1])):
                            r.append(n)
            self.model.abstract[id(ci)] = r
        return r

    def call_func(self, f, args, kwargs, st, fr, node, recv):
        name = getattr(f.node, 'name', '<lambda>')
        c = Call(f.qual, f, recv, name, args, kwargs, node, fr)
        e = self.ev('call', f.qual, st, node, fr, recv=recv, name=name, args=tuple(args),
                    kwargs=kwargs, data='inlined')
        h = self.hook_of(st, f.qual)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                e.data = 'hooked'
                return r
        if f.qual in self.opaque:
            e.data = 'opaque'
            return self.opaque_result(c, e, st, fr, node)
        self.visited.add(f.qual)
        depth = 0
        rec = 0
        x = fr
        while x is not None:
            depth += 1
            if x.node is f.node:
                rec += 1
            x = x.up
        if depth > MAXDEPTH or rec > 6:
            self.unknown.add('recursion limit at %s' % f.qual)
            self.cut += 1
            return self.opaque_result(c, e, st, fr, node)
        fi = self.model.finfo(f.node)
        out = []
        for s, vars in self.bind_args(f, args, kwargs, st, fr, node):
            if isinstance(vars, Raise):
                out.append((s, vars))
                continue
            env = self.new_env(s, f.env, fi, vars)
            selfv = recv
            if selfv is None and f.lexcls is not None and f.env is None and args:
                selfv = args[0]
            if selfv is None and f.env is not None and fr is not None:
                # closures inside methods: inherit self for super()
                selfv = fr.selfv
            if fi.is_async:
                if fi.is_gen:
                    out.append((s, Sym(('asyncgen', f.qual, env))))
                else:
                    out.append((s, CoroV(f, env, selfv)))
                continue
            if f.ctxmgr:
                out.append((s, CtxV(f, env, selfv)))
                continue
            if fi.is_gen:
                out.append((s, s.alloc(HIter((), lazy=('gen', f, env, selfv)))))
                continue
            out.extend(self.finish(self.run_body(f, env, selfv, s, fr, node, vals=True)))
        if len(out) > self.max_paths:
            raise Budget('too many paths from %s' % f.qual)
        return out

    def run_body(self, f, env, selfv, st, fr, node, gen=None, yieldh=None, vals=False):
        """-> outcomes"""
        fi = self.model.finfo(f.node)
        f2 = Frame(f.qual, f.mod, f.lexcls, env, fi, selfv, fr, f.node)
        f2.gen, f2.yieldh = gen, yieldh
        f2.callline = getattr(node, 'lineno', 0)
        self.visited.add(f.qual)
        if isinstance(f.node, ast.Lambda):
            outs = [(s, ('raise', v.exc) if isinstance(v, Raise) else ('ret', v))
                    for s, v in self.ev_(f.node.body, st, f2)]
        else:
            outs = self.ex(f.node.body, st, f2)
        for s, o in outs:
            self.ev('return', f.qual, s, f.node, f2,
                    result=o[1] if o[0] in ('ret', 'raise') else NONE, data=o[0], recv=selfv)
        return outs

    def bind_args(self, f, args, kwargs, st, fr, node):
        """-> [(st, vars|Raise)]"""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vars = {}
        kwargs = dict(kwargs)
        unk_kw = kwargs.pop(None, None)
        rest = list(args)
        star_unknown = None
        i = 0
        for i, p in enumerate(pos):
            if not rest:
                break
            x = rest[0]
            if isinstance(x, StarA):
                star_unknown = x
                break
            vars[p] = rest.pop(0)
        if star_unknown is None and rest and isinstance(rest[0], StarA):
            star_unknown = rest[0]
        if rest and star_unknown is None:
            if a.vararg is None:
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                         '%s() takes %d positional arguments but %d were given' % (
                                             f.qual.split('.')[-1], len(pos), len(args))))]
            vars[a.vararg.arg] = TupleV(rest)
        elif a.vararg is not None:
            if star_unknown is not None:
                vars[a.vararg.arg] = TupleV([Seg(x.v) if isinstance(x, StarA) else x for x in rest])
            else:
                vars[a.vararg.arg] = TupleV([])
        names = pos + [p.arg for p in a.kwonlyargs]
        extra = []
        posonly = {p.arg for p in a.posonlyargs}
        for k, v in kwargs.items():
            if k in names and k not in posonly:
                if k in vars:
                    return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                             '%s() got multiple values for argument %r' % (
                                                 f.qual.split('.')[-1], k)))]
                vars[k] = v
            else:
                extra.append((Const(k), v))
        if extra and a.kwarg is None:
            return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                     '%s() got an unexpected keyword argument %r' % (
                                         f.qual.split('.')[-1], extra[0][0].v)))]
        base = None
        if unk_kw:
            for u in unk_kw:
                if isinstance(u, tuple):
                    extra.append(u)
                else:
                    base = u.key
        if a.kwarg is not None:
            vars[a.kwarg.arg] = st.alloc(HDict(extra, base))
        defs = dict(zip(reversed(pos), reversed(a.defaults)))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        outs = [(st, vars)]
        for p in names:
            if p in vars:
                continue
            if star_unknown is not None and p in pos:
                for s, v in outs:
                    v[p] = Sym(('starg', star_unknown.v.key, pos.index(p)))
                continue
            if p in defs:
                nxt = []
                for s, v in outs:
                    if isinstance(v, Raise):
                        nxt.append((s, v))
                        continue
                    if f.lexcls is not None and f.env is None:
                        dfr = self.class_frame(s, f.lexcls)
                    elif f.env is not None:
                        dfr = Frame(f.qual, f.mod, f.lexcls, f.env, None, None, None)
                    else:
                        dfr = self.mod_frame(s, f.mod)
                    for s2, dv in self.ev_default(f, p, defs[p], s, dfr):
                        nxt.append((s2, dv if isinstance(dv, Raise) else dict(v, **{p: dv})))
                outs = nxt
            else:
                if base is not None:
                    for s, v in outs:
                        v[p] = Sym(('item', base, ('c', 'str', p)))
                    continue
                return [(st, self.raise_(st, 'builtins.TypeError', node, fr,
                                         '%s() missing required argument %r' % (
                                             f.qual.split('.')[-1], p)))]
        return outs

    def ev_default(self, f, p, node, st, dfr):
        """Default values are evaluated once (shared mutable defaults keep their identity)."""
        if isinstance(node, ast.Constant):
            return [(st, Const(node.value))]
        k = ('default', f.key, p)
        if k in st.heap:
            return [(st, st.heap[k])]
        out = []
        for s, v in self.ev_(node, st, dfr):
            if not isinstance(v, Raise):
                s.heap[k] = v
            out.append((s, v))
        return out
