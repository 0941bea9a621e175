"""Small functions; the analysis has to compute what CPython computes (see conform.py)."""
import asyncio
import collections
import contextlib
import dataclasses
import enum
import functools
import itertools
import operator
import os
import re
import typing
from typing import Optional


def t_match():
    def f(x):
        match x:
            case 0:
                return 'zero'
            case [a, b]:
                return ('pair', a, b)
            case {'k': v}:
                return ('map', v)
            case str() as s if s:
                return ('str', s)
            case None:
                return 'none'
            case _:
                return 'other'
    return [f(0), f([1, 2]), f({'k': 3}), f('a'), f(None), f(1.5)]


def t_exitstack():
    out = []

    @contextlib.contextmanager
    def cm(n):
        out.append(('in', n))
        try:
            yield n
        finally:
            out.append(('out', n))
    with contextlib.ExitStack() as stack:
        a = stack.enter_context(cm(1))
        b = stack.enter_context(cm(2))
        stack.callback(out.append, 'cb')
        out.append((a, b))
    return out


def t_exitstack_raise():
    out = []
    try:
        with contextlib.ExitStack() as stack:
            stack.callback(out.append, 'cb')
            raise ValueError('x')
    except ValueError as e:
        out.append(str(e))
    return out


def t_chain():
    return list(itertools.chain([1], (2, 3), {4: 5})) + list(itertools.chain.from_iterable([[1], [2]]))


def t_itertools():
    return [list(itertools.islice([1, 2, 3, 4], 2)), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.product([1, 2], 'ab')),
            list(itertools.zip_longest([1, 2], [3])), list(itertools.accumulate([1, 2, 3])),
            list(itertools.repeat(1, 3)), list(itertools.starmap(max, [(1, 2), (4, 3)]))]


def t_defaultdict():
    d = collections.defaultdict(list)
    d['a'].append(1)
    d['b'].append(2)
    d['a'].append(3)
    return [dict(d), 'c' in d, d.get('c')]


def t_counter():
    c = collections.Counter(['a', 'b', 'a'])
    return [c['a'], c['b'], c['z'], len(c)]


def t_ordereddict():
    d = collections.OrderedDict()
    d['b'] = 1
    d['a'] = 2
    d.move_to_end('b')
    return list(d.items())


def t_deque():
    d = collections.deque([1, 2, 3], maxlen=3)
    d.append(4)
    d.appendleft(0)
    x = d.pop()
    y = d.popleft()
    d.extend([8, 9])
    d.rotate(1)
    return [x, y, list(d)]


def t_namedtuple():
    P = collections.namedtuple('P', 'x y')
    p = P(1, y=2)
    a, b = p
    return [p.x, p.y, a, b, p[0], p == (1, 2), p._replace(x=5).x, len(p)]


class NT(typing.NamedTuple):
    a: int
    b: str = 'z'

    def both(self):
        return self.b * self.a


def t_typed_namedtuple():
    n = NT(2)
    return [n.a, n.b, n.both(), n == NT(2, 'z'), tuple(n)]


@dataclasses.dataclass
class DC:
    a: int
    b: list = dataclasses.field(default_factory=list)
    c: str = 'c'

    def __post_init__(self):
        self.a += 1


@dataclasses.dataclass(frozen=True)
class FDC:
    a: int = 1


def t_dataclass():
    x, y = DC(1), DC(1)
    x.b.append(3)
    return [x.a, x.b, y.b, x == y, DC(1, [3]) == x, FDC() == FDC(1), dataclasses.replace(x, c='q').c]


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class Flag(enum.IntEnum):
    A = 1
    B = 2


def t_enum():
    return [Color.RED.name, Color('b') is Color.BLUE, Color['RED'].value, [c.name for c in Color],
            Color.RED == Color.BLUE, Flag.A == 1, Flag.B > Flag.A, isinstance(Color.RED, Color)]


def t_partial():
    f = functools.partial(lambda a, b, c=0: (a, b, c), 1, c=3)
    return [f(2), f(2, c=4), f.args, f.keywords]


def t_reduce():
    return [functools.reduce(operator.add, [1, 2, 3]), functools.reduce(lambda a, b: a + b, ['a', 'b'], 'x')]


def t_operator():
    class A:
        x = 5

        def m(self, n):
            return n
    return [operator.attrgetter('x')(A()), operator.itemgetter(1)([1, 2]), operator.methodcaller('m', 3)(A()),
            operator.eq(1, 1), operator.not_(0), operator.contains([1], 1)]


def t_lru():
    calls = []

    @functools.lru_cache(maxsize=None)
    def f(x):
        calls.append(x)
        return x * 2
    return [f(1), f(1), f(2), calls]


def t_cached_property():
    class A:
        n = 0

        @functools.cached_property
        def p(self):
            self.n += 1
            return self.n
    a = A()
    return [a.p, a.p, a.n]


def t_singledispatch():
    @functools.singledispatch
    def f(x):
        return 'other'

    @f.register(int)
    def _(x):
        return 'int'

    @f.register(str)
    def _(x):
        return 'str'
    return [f(1), f('a'), f(None)]


def t_wraps():
    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            return ('g', f(*a, **k))
        return g

    @deco
    def h(x):
        """doc"""
        return x
    return [h(1), h.__name__, h.__doc__]


def t_gen():
    def g(n):
        for i in range(n):
            if i == 2:
                return
            yield i
        yield 'end'
    it = g(5)
    return [next(it), list(it), list(g(1)), next(g(0)), next(iter([]), 'd')]


def t_gen_lazy_any():
    seen = []

    def f(x):
        seen.append(x)
        return x == 2
    r = any(f(x) for x in [1, 2, 3])
    s = all(f(x) for x in [2, 1, 3])
    return [r, s, seen]


def t_next_gen():
    seen = []

    def f(x):
        seen.append(x)
        return x > 1
    return [next((x for x in [1, 2, 3] if f(x)), None), next((x for x in [] if f(x)), 'd'), seen]


def t_filter_map():
    return [list(filter(None, [0, 1, '', 'a'])), list(map(str, [1, 2])), list(map(lambda a, b: a + b, [1, 2], [3, 4])),
            next(filter(lambda x: x > 1, [1, 2, 3]), None), list(reversed([1, 2])), sorted([3, 1, 2], reverse=True),
            sorted(['bb', 'a'], key=len), max([1, 3, 2]), min('b', 'a'), sum([1, 2], 10)]


def t_closures():
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    return [[f() for f in fs], [g() for g in gs], inc(), inc(), n]


def t_try():
    out = []

    def f(k):
        try:
            if k == 0:
                return 'ret'
            if k == 1:
                raise KeyError('k')
            if k == 2:
                raise ValueError('v')
        except KeyError:
            return 'key'
        except (ValueError, TypeError) as e:
            return str(e)
        else:
            return 'else'
        finally:
            out.append(k)
    return [f(i) for i in range(4)] + out


def t_finally_override():
    def f():
        for i in range(3):
            try:
                continue
            finally:
                if i == 1:
                    break
        return i

    def g():
        try:
            raise ValueError
        finally:
            return 'swallowed'
    return [f(), g()]


def t_raise_from():
    try:
        try:
            raise KeyError('a')
        except KeyError as e:
            raise ValueError('b') from e
    except ValueError as v:
        return [str(v), type(v.__cause__).__name__, v.args]


def t_context_exc():
    try:
        try:
            raise KeyError('a')
        finally:
            raise ValueError('b')
    except ValueError as v:
        return [str(v), type(v.__context__).__name__]


def t_while_else():
    out = []
    i = 0
    while i < 3:
        i += 1
        if i == 5:
            break
    else:
        out.append('else')
    for x in [1, 2]:
        if x == 2:
            break
    else:
        out.append('no')
    return out + [i]


def t_unpack():
    a, *b = [1, 2, 3]
    *c, d = (4, 5)
    (e, (f, g)), h = (1, (2, 3)), 4
    x = [*b, *c, d]
    y = {**{'a': 1}, 'b': 2, **{'a': 3}}
    return [a, b, c, d, e, f, g, h, x, y]


def t_walrus():
    if (n := len([1, 2])) > 1:
        pass
    return [n, [y for x in [1, 2, 3] if (y := x * 2) > 2], (lambda: n)()]


def t_slices():
    l = [0, 1, 2, 3, 4]
    l[1:3] = ['a']
    m = l[::-1]
    del l[0]
    return [l, m, 'hello'[1:3], 'hello'[-2:], (1, 2, 3)[:-1], l[-1]]


def t_dict_methods():
    d = {'a': 1}
    d.setdefault('b', []).append(2)
    d.update(c=3)
    d |= {'e': 5}
    p = d.pop('a')
    q = d.pop('zz', None)
    r = {k: v for k, v in sorted(d.items(), key=lambda kv: kv[0])}
    return [d, p, q, r, list(d), list(d.values()), d.get('x', 7), dict.fromkeys(['a', 'b'], 0), dict([('k', 1)]),
            dict(zip('ab', [1, 2])), d | {'z': 1}, d.popitem(), 'c' in d.keys(), d.keys() == {'b', 'c'}]


def t_sets():
    s = {1, 2} | {3}
    t = s - {1}
    s.add(9)
    s.discard(100)
    u = frozenset([1]) & {1, 2}
    return [sorted(s), sorted(t), sorted(u), {1} <= {1, 2}, {1, 2} == {2, 1}, {1, 2} == {1, 3}, {1}.isdisjoint({2}),
            sorted({1, 2}.symmetric_difference({2, 3})), {1}.issubset({1})]


def t_strings():
    return ['a,b,c'.split(','), 'a b'.partition(' '), 'x=y=z'.rpartition('='), ' a '.strip(), 'abc'.startswith(('x', 'a')),
            'a{}b{x!r}'.format(1, x='q'), '%s-%d' % ('a', 3), f'{1:>3}|{"a"!r}', 'aXbX'.replace('X', '-', 1), 'a\nb\n'.splitlines(),
            'abc'.find('c'), 'ab'.upper(), 'a' * 3, ','.join(str(i) for i in range(3)), 'abc'[::-1], 'a-b'.title(),
            'abc'.removeprefix('a'), 'x'.zfill(3), 'a\tb'.expandtabs(4), 'ab'.encode(), b'ab'.decode(), 'k'.ljust(3) + '|',
            '{:.2f}'.format(1.5), '{0}{1}{0}'.format('a', 'b'), '{a.real}'.format(a=3), str([1, 'a']), repr({'a': (1,)}),
            'a.b'.rsplit('.', 1), 'abc'.count('b'), 'A'.isupper(), 'abc'.index('b'), 'ab'.isidentifier(), 'aBc'.casefold()]


def t_ints():
    return [7 // 2, -7 // 2, 7 % 3, 2 ** 3, 1 << 2, 5 & 4, int('3'), float('1.5'), round(1.6), abs(-1), divmod(7, 2), int(2.7),
            bool(0), 1 if True else 2, 3 == 3.0, True + 1, not [], 1 < 2 < 3, 3 > 2 > 5, None is None, hash('a') == hash('a')]


def t_classes():
    class A:
        x = 1

        def __init__(self):
            self.log = ['A']

        def m(self):
            return 'A.m'

        @classmethod
        def make(cls):
            return cls()

        @staticmethod
        def s(v):
            return v

        @property
        def p(self):
            return self._p

        @p.setter
        def p(self, v):
            self._p = v + 1

    class B(A):
        def __init__(self):
            super().__init__()
            self.log.append('B')

        def m(self):
            return 'B.' + super().m()

    class C(A):
        def m(self):
            return 'C.' + super().m()

    class D(B, C):
        pass
    d = D.make()
    d.p = 4
    A.x = 2
    return [d.m(), d.log, d.p, D.s(1), d.x, type(d).__name__, isinstance(d, C), issubclass(D, A), [c.__name__ for c in D.__mro__][:4],
            hasattr(d, 'q'), getattr(d, 'q', 0), d.__class__ is D]


def t_dunder():
    class V:
        def __init__(self, n):
            self.n = n

        def __eq__(self, o):
            return isinstance(o, V) and o.n == self.n

        def __hash__(self):
            return hash(self.n)

        def __lt__(self, o):
            return self.n < o.n

        def __add__(self, o):
            return V(self.n + o.n)

        def __len__(self):
            return self.n

        def __getitem__(self, i):
            if i >= self.n:
                raise IndexError
            return i * 10

        def __contains__(self, x):
            return x == 'in'

        def __call__(self, *a, **k):
            return (a, k)

        def __bool__(self):
            return self.n != 0

        def __repr__(self):
            return 'V%d' % self.n

        def __iter__(self):
            return iter(range(self.n))

        def __getattr__(self, a):
            if a.startswith('dyn'):
                return a
            raise AttributeError(a)
    v = V(2)
    return [v == V(2), v != V(3), v < V(3), (v + V(1)).n, len(v), v[1], 'in' in v, 'x' in v, v(1, k=2), bool(V(0)), repr(v),
            f'{v}', list(v), v.dynx, hasattr(v, 'zz'), sorted([V(3), V(1)])[0].n, max(V(1), V(5)).n, {V(1): 'a'}[V(1)], V(1) in [V(1)]]


def t_descriptors():
    class Desc:
        def __set_name__(self, o, n):
            self.n = '_' + n

        def __get__(self, i, o):
            return getattr(i, self.n, 'unset')

        def __set__(self, i, v):
            setattr(i, self.n, v)

    class A:
        d = Desc()
    a = A()
    b = a.d
    a.d = 3
    return [b, a.d, a._d]


def t_with():
    out = []

    class CM:
        def __init__(self, swallow):
            self.swallow = swallow

        def __enter__(self):
            out.append('enter')
            return self

        def __exit__(self, t, v, tb):
            out.append(t.__name__ if t else None)
            return self.swallow
    with CM(True) as a, CM(False):
        raise ValueError('x')
    with contextlib.suppress(KeyError):
        {}['a']
    with contextlib.nullcontext(5) as n:
        out.append(n)
    with contextlib.closing(a) if False else CM(False):
        pass
    return out


def t_contextmanager():
    out = []

    @contextlib.contextmanager
    def cm(x):
        out.append('in')
        try:
            yield x
        except ValueError:
            out.append('caught')
        finally:
            out.append('out')
    with cm(3) as v:
        out.append(v)
        raise ValueError
    with cm(4):
        pass
    return out


def t_args():
    def f(a, b=2, *args, c, d=4, **kw):
        return (a, b, args, c, d, kw)

    def g(a, /, b, *, c=1):
        return (a, b, c)
    out = [f(1, c=3), f(1, 2, 3, 4, c=5, e=6), g(1, b=2), g(1, 2, c=3), f(*[1, 2], **{'c': 3})]
    for bad in (lambda: f(1), lambda: g(a=1, b=2), lambda: g(1), lambda: g(1, 2, 3), lambda: g(1, 2, d=1), lambda: f(1, a=2, c=1)):
        try:
            bad()
            out.append('ok')
        except TypeError:
            out.append('TypeError')
    return out


def t_mutable_default():
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return [f(1), f(2), f(3, [])]


def t_recursion():
    def walk(t):
        if isinstance(t, list):
            return [y for x in t for y in walk(x)]
        return [t]

    def fact(n):
        return 1 if n < 2 else n * fact(n - 1)
    return [walk([1, [2, [3]], 4]), fact(5)]


def t_yield_from():
    def walk(t):
        for x in t:
            if isinstance(x, list):
                yield from walk(x)
            else:
                yield x
    return list(walk([1, [2, [3]], 4]))


def t_iter_class():
    class It:
        def __init__(self, n):
            self.n = n

        def __iter__(self):
            return self

        def __next__(self):
            if not self.n:
                raise StopIteration
            self.n -= 1
            return self.n
    return [list(It(3)), [x for x in It(2)], sum(It(4)), list(zip(It(2), 'ab')), list(enumerate(It(2), 1)), dict(enumerate('ab')),
            list(map(str, It(2))), max(It(3)), 1 in It(3), sorted(It(3)), tuple(It(1)), [*It(2)], list(iter(lambda it=It(3): next(it), 0))]


def t_del():
    d = {'a': 1, 'b': 2}
    del d['a']

    class A:
        pass
    a = A()
    a.x = 1
    del a.x
    setattr(a, 'y', 2)
    delattr(a, 'y')
    return [d, hasattr(a, 'x'), hasattr(a, 'y'), vars(a)]


def t_list_methods():
    l = [3, 1]
    l.extend([2, 5])
    l.insert(0, 9)
    l.remove(1)
    x = l.pop()
    y = l.pop(0)
    l.sort()
    l.reverse()
    m = l.copy()
    m.clear()
    l += [7]
    return [l, x, y, m, l.index(7), l.count(2), [1] * 2, [1] + [2], [1, 2] < [1, 3], [[0]] * 2, list('ab')]


def t_sort_key():
    l = [('b', 2), ('a', 2), ('c', 1)]
    l.sort(key=lambda t: (t[1], t[0]))
    return [l, sorted(l, key=operator.itemgetter(0), reverse=True), min(l, key=lambda t: t[0])]


def t_re():
    m = re.match(r'(?P<a>\d+)-(\w+)', '12-ab')
    return [m.group(1), m.group('a'), m.groups(), m.span(), re.sub('a', 'b', 'aa'), re.findall(r'\d', 'a1b2'), bool(re.search('z', 'a')),
            re.split(',', 'a,b'), re.compile('x').pattern, m.groupdict(), [x.start() for x in re.finditer('a', 'aba')], re.escape('a.b')]


def t_os():
    return [os.path.join('a', 'b'), os.path.basename('/x/y.z'), os.path.splitext('a.b'), os.path.dirname('/x/y'), os.linesep, os.sep]


def t_typing():
    def f(x: Optional[int] = None) -> 'int':
        return typing.cast(int, x or 3)
    return [f(), f(2), typing.get_origin(typing.List[int]) is list, typing.get_args(typing.Dict[str, int]) == (str, int)]


def t_isinstance():
    return [isinstance(1, (int, str)), isinstance(True, int), isinstance([], collections.abc.Iterable), isinstance('a', collections.abc.Sequence),
            isinstance({}, collections.abc.Mapping), callable(len), callable(3), isinstance(lambda: 1, collections.abc.Callable), isinstance(1, int | str),
            isinstance((), collections.abc.Hashable), isinstance([], collections.abc.Hashable), type(1) is int, type('a') == str, isinstance(None, type(None))]


def t_global_class_attr():
    class K:
        items = []
        n = 0

        def add(self, x):
            self.items.append(x)
            self.n += 1
    a, b = K(), K()
    a.add(1)
    b.add(2)
    return [K.items, a.n, K.n, K.__dict__['n']]


def t_chained():
    a = b = []
    a.append(1)
    x = y = 0
    x += 1
    return [b, x, y, a is b]


def t_assert():
    out = []
    try:
        assert 1 == 2, 'msg'
    except AssertionError as e:
        out.append(str(e))
    return out


def t_nested_exc_state():
    out = []
    try:
        raise ValueError('a')
    except ValueError:
        try:
            raise
        except ValueError as e:
            out.append(str(e))
    return out


def t_exception_group_args():
    class E(Exception):
        def __init__(self, a, b):
            super().__init__('%s:%s' % (a, b))
            self.a = a
    try:
        raise E(1, 2)
    except Exception as e:
        return [str(e), e.a, e.args, isinstance(e, E), repr(e)]


def t_string_building():
    s = ''
    for i, c in enumerate('abc'):
        s += '%d%s' % (i, c)
    return [s, ''.join([c for c in s if c.isdigit()]), s.translate({ord('a'): 'X'}), '-'.join(map(str, (1, 2)))]


def t_bytes():
    b = b'a\nb'
    return [b.split(b'\n'), b + b'c', b[0], b[:1], b.decode('utf-8', errors='replace'), bytes([65]), b'\xff'.decode(errors='replace'), len(b)]


def t_async():
    async def f(x):
        return x + 1

    async def g():
        out = []
        out.append(await f(1))
        for i in [1, 2]:
            out.append(await f(i))
        return out
    return None if asyncio is None else 'defined'


def t_cond_expr():
    x = None
    y = x or 'd'
    z = x and x.foo
    w = (x if x is not None else 'n')
    return [y, z, w, not x, [] or {} or 'e', 1 and 2, 0 or None]


def t_star_kwargs_order():
    def f(**kw):
        return list(kw.items())
    return [f(b=1, a=2), f(**{'z': 1}, y=2)]


def t_property_delegate():
    class A:
        def __init__(self):
            self.__x = 1

        @property
        def x(self):
            return self.__x

        def bump(self):
            self.__x += 1
            return self
    return [A().bump().bump().x, hasattr(A(), '__x'), A()._A__x]


def t_getattr_setattr():
    class A:
        pass
    a = A()
    for k, v in {'p': 1, 'q': 2}.items():
        setattr(a, k, v)
    a.__dict__['r'] = 3
    a.__dict__.update(s=4)
    return [a.p, a.q, getattr(a, 'r'), a.s, sorted(vars(a))]


def t_class_call_hooks():
    class Base:
        reg = []

        def __init_subclass__(cls, **kw):
            super().__init_subclass__(**kw)
            Base.reg.append(cls.__name__)

    class X(Base):
        pass

    class S:
        inst = None

        def __new__(cls):
            if cls.inst is None:
                cls.inst = super().__new__(cls)
            return cls.inst
    return [Base.reg, S() is S()]


def t_abc():
    import abc

    class A(abc.ABC):
        @abc.abstractmethod
        def f(self):
            """x"""

    class B(A):
        def f(self):
            return 1
    try:
        A()
        r = 'made'
    except TypeError:
        r = 'TypeError'
    return [B().f(), r]


def t_metaclass_type():
    T = type('T', (object,), {'x': 1, 'm': lambda self: self.x})
    return [T().m(), T.__name__, T.x]


def t_inner_functions_state():
    def counter():
        state = {'n': 0}

        def inc(by=1):
            state['n'] += by
            return state['n']
        inc.calls = 0
        return inc
    a, b = counter(), counter()
    a.calls = 7
    return [a(), a(2), b(), a.calls, b.calls]


def t_comprehensions():
    return [{x: y for x, y in zip('ab', range(2))}, {x % 2 for x in range(4)} == {0, 1}, [(a, b) for a in range(2) for b in range(2) if a != b],
            sum(x for x in range(4)), [[j for j in range(i)] for i in range(3)], dict((k, v) for k, v in [('a', 1)]), list(x for x in 'ab'),
            [x if x else 'z' for x in (0, 1)], tuple(i for i in [1])]


def t_loops_modify():
    l = [1, 2, 3, 4]
    for x in list(l):
        if x % 2:
            l.remove(x)
    m = [1, 2, 3]
    for x in m:
        if x < 3:
            m.append(x + 10) if len(m) < 5 else None
    d = {'a': 1}
    try:
        for k in d:
            d[k + 'x'] = 1
        r = 'ok'
    except RuntimeError:
        r = 'changed'
    return [l, m, r]


def t_zip_strict():
    try:
        list(zip([1], [1, 2], strict=True))
        return 'ok'
    except ValueError:
        return 'ValueError'


def t_textwrap():
    import textwrap
    return [textwrap.dedent('  a\n  b\n'), textwrap.indent('a\nb', '> ')]


def t_copy():
    import copy
    a = {'x': [1]}
    b, c = copy.copy(a), copy.deepcopy(a)
    a['x'].append(2)
    return [b, c]


def t_pathlib():
    import pathlib
    p = pathlib.Path('/a') / 'b.c'
    return [str(p), p.name, p.suffix, str(p.parent), p.stem]


def t_json():
    import json
    return [json.dumps({'a': [1, None]}), json.loads('{"a": 1}')]


def t_shlex():
    import shlex
    return [shlex.split('a "b c" d'), shlex.quote('a b'), shlex.join(['a', 'b c'])]


def t_globals_fn():
    return [len([n for n in ('t_globals_fn', 'nope') if n in globals()])]


def t_lambda_map_filter_chain():
    return [list(map(lambda x: x * 2, filter(lambda x: x % 2, range(5)))), ''.join(reversed('abc')), list(zip(*[(1, 2), (3, 4)]))]


def t_bool_ops():
    return [any([]), all([]), any([0, 1]), all([1, 0]), bool(''), bool('0'), bool([0]), not None, True and 'x', None or 0]


def t_float_str():
    return [str(1.0), repr(0.5), int('10'), float('inf') > 1, str(True), '{}'.format(None), int(' 3 '), float('1e3')]


def t_errors():
    out = []
    for f in (lambda: int('x'), lambda: {}['a'], lambda: [][0], lambda: None.x, lambda: 'a' + 1, lambda: 1 / 0, lambda: float('y'),
              lambda: (1, 2)[5], lambda: [].remove(1), lambda: 'a'.index('b'), lambda: iter(3), lambda: len(3), lambda: dict([1]), lambda: {}.pop('a'),
              lambda: [].pop(), lambda: set().pop(), lambda: next(iter([])), lambda: (lambda: 1)(2), lambda: sorted([1, 'a']), lambda: [1, 2] + (3,), lambda: {[]: 1},
              lambda: b'\xff'.decode(), lambda: '\xff'.encode('ascii'), lambda: getattr(1, 'zz'), lambda: open('/nonexistent/x')):
        try:
            f()
            out.append('ok')
        except Exception as e:
            out.append(type(e).__name__)
    return out
