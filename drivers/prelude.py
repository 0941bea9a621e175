"""Parts of the standard library written in Python: the analysis reads these instead of the
library's own source, which is partly written in C."""


# ------------------------------------------------------------------ itertools
def islice(iterable, *args):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    else:
        start, stop = args[0] or 0, args[1]
        step = 1 if len(args) < 3 or args[2] is None else args[2]
    i = 0
    want = start
    if stop is not None and want >= stop:
        return
    for x in iterable:
        if i == want:
            yield x
            want += step
            if stop is not None and want >= stop:
                return
        i += 1


def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            break
        yield x


def dropwhile(predicate, iterable):
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x


def filterfalse(predicate, iterable):
    for x in iterable:
        if not (bool(x) if predicate is None else predicate(x)):
            yield x


def starmap(function, iterable):
    for args in iterable:
        yield function(*args)


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def pairwise(iterable):
    first = True
    last = None
    for x in iterable:
        if not first:
            yield (last, x)
        first = False
        last = x


def accumulate(iterable, func=None, *, initial=None):
    total = initial
    started = initial is not None
    if started:
        yield total
    for x in iterable:
        if not started:
            total = x
            started = True
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        yield total


def product(*iterables, repeat=1):
    pools = [tuple(it) for it in iterables] * repeat
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    yield from result


def permutations(iterable, r=None):
    pool = tuple(iterable)
    r = len(pool) if r is None else r
    for idx in product(range(len(pool)), repeat=r):
        if len(set(idx)) == r:
            yield tuple([pool[i] for i in idx])


def combinations(iterable, r):
    pool = tuple(iterable)
    for idx in product(range(len(pool)), repeat=r):
        if all([idx[i] < idx[i + 1] for i in range(r - 1)]):
            yield tuple([pool[i] for i in idx])


def zip_longest(*iterables, fillvalue=None):
    lists = [list(it) for it in iterables]
    n = max([len(x) for x in lists], default=0)
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in lists])


class Repeat:

    def __init__(self, object, times=None):
        self.object = object
        self.times = times

    def __iter__(self):
        return self

    def __next__(self):
        if self.times is not None:
            if self.times <= 0:
                raise StopIteration
            self.times -= 1
        return self.object


class Cycle:

    def __init__(self, iterable):
        self.items = list(iterable)
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if not self.items:
            raise StopIteration
        x = self.items[self.i]
        self.i = (self.i + 1) % len(self.items)
        return x


def groupby(iterable, key=None):
    group = []
    last = None
    for x in iterable:
        k = x if key is None else key(x)
        if group and k != last:
            yield (last, iter(group))
            group = []
        last = k
        group = group + [x]
    if group:
        yield (last, iter(group))


def tee(iterable, n=2):
    items = list(iterable)
    return tuple([iter(items) for _ in range(n)])


# ------------------------------------------------------------------ contextlib
class Suppress:

    def __init__(self, *exceptions):
        self.exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, kind, value, traceback):
        return kind is not None and issubclass(kind, self.exceptions)


class NullContext:

    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *args):
        return None

    async def __aenter__(self):
        return self.enter_result

    async def __aexit__(self, *args):
        return None


class Closing:

    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *args):
        self.thing.close()


class ExitStack:

    def __init__(self):
        self.callbacks = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        exit = type(cm).__exit__
        value = type(cm).__enter__(cm)
        self.callbacks.append(lambda *details: exit(cm, *details))
        return value

    def push(self, exit):
        if hasattr(exit, '__exit__'):
            self.callbacks.append(exit.__exit__)
        else:
            self.callbacks.append(exit)
        return exit

    def callback(self, callback, /, *args, **kwargs):
        def run(*details):
            callback(*args, **kwargs)
        self.callbacks.append(run)
        return callback

    def pop_all(self):
        other = ExitStack()
        other.callbacks = self.callbacks
        self.callbacks = []
        return other

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, kind, value, traceback):
        pending = value
        suppressed = False
        while self.callbacks:
            callback = self.callbacks.pop()
            try:
                if callback(kind, pending, traceback):
                    suppressed = True
                    pending = kind = traceback = None
            except BaseException as e:
                suppressed = False
                pending = e
                kind = type(e)
        if pending is not None and pending is not value:
            raise pending
        return value is not None and suppressed


class ContextDecorator:
    pass


# ------------------------------------------------------------------ functools
def reduce(function, iterable, *initial):
    started = bool(initial)
    total = initial[0] if initial else None
    for x in iterable:
        if started:
            total = function(total, x)
        else:
            total = x
            started = True
    if not started:
        raise TypeError('reduce() of empty iterable with no initial value')
    return total


class CachedFunction:

    def __init__(self, function):
        self.function = function
        self.__wrapped__ = function
        self.__name__ = function.__name__
        self.results = []

    def __call__(self, *args, **kwargs):
        for a, k, r in self.results:
            if a == args and k == kwargs:
                return r
        r = self.function(*args, **kwargs)
        self.results.append((args, kwargs, r))
        return r

    def cache_clear(self):
        self.results = []


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return CachedFunction(maxsize)
    return CachedFunction


# ------------------------------------------------------------------ operator
def attrgetter(*names):
    def get(obj, name):
        for part in name.split('.'):
            obj = getattr(obj, part)
        return obj
    if len(names) == 1:
        return lambda obj: get(obj, names[0])
    return lambda obj: tuple([get(obj, name) for name in names])


def itemgetter(*keys):
    if len(keys) == 1:
        return lambda obj: obj[keys[0]]
    return lambda obj: tuple([obj[key] for key in keys])


def methodcaller(name, /, *args, **kwargs):
    return lambda obj: getattr(obj, name)(*args, **kwargs)


def op_eq(a, b):
    return a == b


def op_ne(a, b):
    return a != b


def op_lt(a, b):
    return a < b


def op_le(a, b):
    return a <= b


def op_gt(a, b):
    return a > b


def op_ge(a, b):
    return a >= b


def op_is_(a, b):
    return a is b


def op_is_not(a, b):
    return a is not b


def op_not_(a):
    return not a


def op_truth(a):
    return bool(a)


def op_contains(a, b):
    return b in a


def op_getitem(a, b):
    return a[b]


def op_setitem(a, b, c):
    a[b] = c


def op_delitem(a, b):
    del a[b]


def op_add(a, b):
    return a + b


def op_sub(a, b):
    return a - b


def op_mul(a, b):
    return a * b


def op_truediv(a, b):
    return a / b


def op_mod(a, b):
    return a % b


def op_neg(a):
    return -a


def op_or_(a, b):
    return a | b


def op_and_(a, b):
    return a & b


# ------------------------------------------------------------------ collections
class ChainMap:

    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __contains__(self, key):
        return any([key in m for m in self.maps])

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            for k in m:
                d[k] = None
        return iter(d)

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def __len__(self):
        return len(list(self))
