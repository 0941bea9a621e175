"""Abstract values, heap entries, program states."""
from .model import ClassInfo


NORMAL = ('normal',)
BREAK = ('break',)
CONT = ('cont',)


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ('v', 'key')

    def __init__(self, v):
        self.v = v
        self.key = ('c', type(v).__name__, v if not isinstance(v, float) or v == v else 'nan')

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


def boolc(b):
    return TRUE if b else FALSE


class Sym(V):
    """An unknown value, identified by its term."""

    __slots__ = ('key', 'cls', 'types', 'recv', 'aname', 'origin', 'nonnull')

    def __init__(self, key, cls=None, types=None, recv=None, aname=None, origin=None, nonnull=False):
        self.key = key if isinstance(key, tuple) else ('s', key)
        self.cls = cls          # ClassInfo used for dispatch
        self.types = types      # frozenset of qualified names: exactly one of these (closed)
        self.recv, self.aname = recv, aname
        self.origin = origin    # Ev of the call that produced it
        self.nonnull = nonnull or bool(types)

    def __repr__(self):
        return term_str(self.key)


class Seg:
    """Zero or more unknown elements coming from an iterable value."""

    __slots__ = ('src',)

    def __init__(self, src):
        self.src = src

    def __repr__(self):
        return '*' + repr(self.src)

    @property
    def key(self):
        return ('seg', self.src.key)


class Ref(V):
    __slots__ = ('oid', 'key')

    def __init__(self, oid):
        self.oid = oid
        self.key = ('r', oid)

    def __repr__(self):
        return '@%s' % (self.oid,)


class TupleV(V):
    __slots__ = ('items', 'key')

    def __init__(self, items):
        self.items = tuple(items)
        self.key = ('t',) + tuple(i.key for i in self.items)

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class FuncV(V):
    __slots__ = ('node', 'mod', 'lexcls', 'env', 'qual', 'key', 'ctxmgr', 'sn')

    def __init__(self, node, mod, lexcls, env, qual, ctxmgr=False, sn=None):
        self.sn = sn        # tells the functions apart that one definition makes
        self.node, self.mod, self.lexcls, self.env, self.qual = node, mod, lexcls, env, qual
        self.ctxmgr = ctxmgr
        self.key = ('f', qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), env, sn)

    def __repr__(self):
        return '<fn %s>' % self.qual


class BoundV(V):
    __slots__ = ('fn', 'selfv', 'key')

    def __init__(self, fn, selfv):
        self.fn, self.selfv = fn, selfv
        self.key = ('bm', fn.key, selfv.key)

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.selfv)


class ClassV(V):
    __slots__ = ('ci', 'key')

    def __init__(self, ci):
        self.ci = ci
        self.key = ('cls', ci.qual)

    def __repr__(self):
        return '<class %s>' % self.ci.qual


class GenV(V):
    """A subscripted generic such as typing.List[int]."""

    __slots__ = ('name', 'args', 'key')

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)
        self.key = ('gen', name) + tuple(a.key for a in self.args)

    def __repr__(self):
        return '%s[%s]' % (self.name, ', '.join(map(repr, self.args)))


class ModV(V):
    __slots__ = ('mi', 'key')

    def __init__(self, mi):
        self.mi = mi
        self.key = ('mod', mi.name)

    def __repr__(self):
        return '<module %s>' % self.mi.name


class ExtV(V):
    """An external module / class / function, by dotted name."""

    __slots__ = ('name', 'key')

    def __init__(self, name):
        self.name = name
        self.key = ('ext', name)

    def __repr__(self):
        return '<%s>' % self.name


class BuiltinM(V):
    """A method of a modelled builtin value."""

    __slots__ = ('recv', 'name', 'key')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self.key = ('bim', recv.key, name)

    def __repr__(self):
        return '<%r.%s>' % (self.recv, self.name)


class CoroV(V):
    __slots__ = ('fn', 'env', 'selfv', 'key')

    def __init__(self, fn, env, selfv):
        self.fn, self.env, self.selfv = fn, env, selfv
        self.key = ('coro', fn.key, env)

    def __repr__(self):
        return '<coro %s>' % self.fn.qual


class CtxV(V):
    """A not yet entered @contextmanager generator."""

    __slots__ = ('fn', 'env', 'selfv', 'key')

    def __init__(self, fn, env, selfv):
        self.fn, self.env, self.selfv = fn, env, selfv
        self.key = ('ctx', fn.key, env)


class SuperV(V):
    __slots__ = ('cls', 'selfv', 'key')

    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv
        self.key = ('super', cls.qual, selfv.key)


class PartialV(V):
    __slots__ = ('fn', 'args', 'kwargs', 'key')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)
        self.key = ('partial', fn.key, tuple(a.key for a in args),
                    tuple((k, v.key) for k, v in self.kwargs.items()))

    def __repr__(self):
        return '<partial %r %r %r>' % (self.fn, self.args, self.kwargs)


class StarA:
    """*unknown in an argument list."""

    __slots__ = ('v', 'key')

    def __init__(self, v):
        self.v = v
        self.key = ('star', v.key)

    def __repr__(self):
        return '*%r' % self.v


class Raise:
    """Result of an evaluation that raised."""

    __slots__ = ('exc', 'node')

    def __init__(self, exc, node=None):
        self.exc, self.node = exc, node

    def __repr__(self):
        return 'Raise(%r)' % (self.exc,)


class _Deleted:
    key = ('deleted',)

    def __repr__(self):
        return '<deleted>'


DELETED = _Deleted()


# ---------------------------------------------------------------- heap entries
class HObj:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        self.cls = cls      # ClassInfo or external dotted name
        self.attrs = attrs or {}

    def copy(self):
        return HObj(self.cls, dict(self.attrs))

    @property
    def cname(self):
        return self.cls.qual if isinstance(self.cls, ClassInfo) else self.cls


class HList:
    __slots__ = ('kind', 'items')

    def __init__(self, items, kind='list'):
        self.items = tuple(items)
        self.kind = kind


class HDict:
    __slots__ = ('entries', 'base', 'factory', 'kind')

    def __init__(self, entries=(), base=None, factory=None, kind='dict'):
        self.entries, self.base, self.factory, self.kind = tuple(entries), base, factory, kind


class HEnv:
    __slots__ = ('vars', 'parent', 'finfo')

    def __init__(self, vars, parent, finfo):
        self.vars, self.parent, self.finfo = vars, parent, finfo


class HIter:
    """An iterator: its items, how many were taken, what it raises after the last (err); lazy is
    set while nothing was asked of it: ('gen', function, environment, self) or
    ('map'|'filter'|'zip'|'enum', ...)."""

    __slots__ = ('items', 'pos', 'live', 'lazy', 'err')

    def __init__(self, items, pos=0, live=None, lazy=None, err=None):
        self.items, self.pos, self.live, self.lazy, self.err = tuple(items), pos, live, lazy, err


class Ev:
    """One event of a trace."""

    __slots__ = ('kind', 'target', 'recv', 'name', 'args', 'kwargs', 'result', 'file', 'line',
                 'func', 'locks', 'data', 'stack')

    def __init__(self, kind, target, **kw):
        self.kind, self.target = kind, target
        self.recv = self.name = self.result = self.data = None
        self.args, self.kwargs = (), {}
        self.file = self.line = self.func = None
        self.locks = ()
        self.stack = ()
        for k, v in kw.items():
            setattr(self, k, v)

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None:
            return self.kwargs.get(name)
        return None

    def __repr__(self):
        s = '%s %s' % (self.kind, self.target)
        if self.recv is not None:
            s += ' on %r' % (self.recv,)
        if self.args or self.kwargs:
            s += ' (%s)' % ', '.join(
                [repr(a) for a in self.args] + ['%s=%r' % kv for kv in self.kwargs.items()])
        if self.data is not None:
            s += ' %r' % (self.data,)
        return s + ' [%s:%s]' % (self.file, self.line)


class State:
    __slots__ = ('heap', 'facts', 'trace', 'locks', 'n', 'epoch', 'cur_exc', 'meta', 'tlen')

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.trace = None
        self.locks = ()
        self.n = 0
        self.epoch = 0
        self.cur_exc = ()
        self.meta = {}
        self.tlen = 0

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.locks = self.locks
        s.n = self.n
        s.epoch = self.epoch
        s.cur_exc = self.cur_exc
        s.meta = dict(self.meta)
        s.tlen = self.tlen
        return s

    def add(self, ev):
        self.trace = (self.trace, ev)
        self.tlen += 1

    def events(self, since=0):
        out = []
        t = self.trace
        n = self.tlen
        while t is not None and n > since:
            out.append(t[1])
            t = t[0]
            n -= 1
        out.reverse()
        return out

    def alloc(self, entry, tag='o'):
        self.n += 1
        oid = '%s%d' % (tag, self.n)
        self.heap[oid] = entry
        return Ref(oid)

    def obj(self, ref):
        return self.heap[ref.oid] if isinstance(ref, Ref) else None


def term_str(k):
    if not isinstance(k, tuple):
        return str(k)
    if not k:
        return '()'
    h = k[0]
    if h == 's':
        return str(k[1])
    if h == 'c':
        return repr(k[2])
    if h == 'attr':
        return '%s.%s' % (term_str(k[1]), k[2])
    if h == 'item':
        return '%s[%s]' % (term_str(k[1]), term_str(k[2]))
    if h == 'call':
        return '%s()#%s' % (k[1], k[2])
    if h == 'pure':
        return '%s(%s)' % (k[1], ', '.join(term_str(x) for x in k[2:]))
    if h == 'elem':
        return 'elem%s(%s)' % (k[2], term_str(k[1]))
    if h == 'r':
        return '@%s' % k[1]
    if h == 'bin':
        return '(%s %s %s)' % (term_str(k[2]), k[1], term_str(k[3]))
    return '%s(%s)' % (h, ', '.join(term_str(x) for x in k[1:]))
