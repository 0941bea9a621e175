"""Terms over unknown inputs, evaluated for sample values of these: a check which is neither proved nor disproved
is reported when it is false for one of them."""
import itertools
import os.path
import shlex

from .values import HList, Seg

LIMIT = 4000
TEXTS = ('', 'a', 'Ab', ' x y ', '1', '-2.5', 'k=v', 'a,b;c:d', '/p/q.r', "it's \"q\" \\", '$(x) {y} %s', '\n', 'ü',
         'true', 'null')
VALUES = {
    'builtins.str': TEXTS,
    'builtins.int': (0, 1, -1, 2, 7, 255, -9, -100, 100000),
    'builtins.float': (0.0, 1.0, -1.0, 0.25, 7.5, 1e9),
    'builtins.bool': (False, True),
    'builtins.bytes': (b'', b'a', b'a\n', b'\xff', b' b '),
    'builtins.NoneType': (None,)}
METHODS = {'strip', 'lstrip', 'rstrip', 'replace', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'lower',
           'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'startswith', 'endswith', 'find', 'rfind', 'index',
           'count', 'encode', 'decode', 'join', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isnumeric',
           'isidentifier', 'isalnum', 'isdecimal', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'removeprefix',
           'removesuffix', 'hex'}
FUNCTIONS = {'str': str, 'repr': repr, 'abs': abs, 'round': round, 'max': max, 'min': min, 'builtins.int': int,
             'builtins.float': float, 'builtins.bool': bool, 'builtins.str': str,
             'os.path.basename': os.path.basename, 'os.path.dirname': os.path.dirname, 'os.path.join': os.path.join,
             'os.path.normpath': os.path.normpath, 'os.path.split': os.path.split, 'os.path.splitext': os.path.splitext,
             'os.path.isabs': os.path.isabs, 'shlex.split': shlex.split, 'shlex.quote': shlex.quote}
TYPES = {'builtins.str': str, 'builtins.int': int, 'builtins.float': float, 'builtins.bool': bool,
         'builtins.bytes': bytes, 'builtins.NoneType': type(None), 'builtins.list': list, 'builtins.tuple': tuple,
         'builtins.dict': dict}
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '//': lambda a, b: a // b, '%': lambda a, b: a % b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
       '^': lambda a, b: a ^ b, '**': None}
PLAIN = (str, int, float, bool, bytes, type(None), list, tuple)


class Unknown(Exception):
    pass


def value(k, env, heap):
    """The value of a term, for these values of the inputs."""
    if k in env:
        return env[k]
    t = k[0]
    if t == 'c':
        if isinstance(k[2], PLAIN) and k[1] in ('str', 'int', 'float', 'bool', 'bytes', 'NoneType'):
            return k[2]
        raise Unknown
    if t == 'not':
        return not value(k[1], env, heap)
    if t == 'truthy':
        return bool(value(k[1], env, heap))
    if t == 'is':
        a, b = value(k[1], env, heap), value(k[2], env, heap)
        if a is None or b is None:
            return a is b
        if type(a) is not type(b) or a != b:
            return False
        raise Unknown
    if t == 'eq':
        return value(k[1], env, heap) == value(k[2], env, heap)
    if t == 'lt':
        return value(k[1], env, heap) < value(k[2], env, heap)
    if t == 'in':
        return value(k[1], env, heap) in value(k[2], env, heap)
    if t == 'len':
        return len(value(k[1], env, heap))
    if t == 'isinstance':
        if not isinstance(k[2], str):
            raise Unknown
        ts = k[2].split('|')
        if any(x not in TYPES for x in ts):
            raise Unknown
        return isinstance(value(k[1], env, heap), tuple(TYPES[x] for x in ts))
    if t == 'concat':
        xs = [value(x, env, heap) for x in k[1:]]
        if not all(isinstance(x, str) for x in xs):
            raise Unknown
        return ''.join(xs)
    if t == 'bjoin':
        return k[1].join([value(x, env, heap) for x in k[2:]])
    if t == 't':
        return tuple(value(x, env, heap) for x in k[1:])
    if t == 'r':
        h = heap.get(k[1])
        if isinstance(h, HList) and getattr(h, 'kind', 'list') == 'list' and not any(isinstance(x, Seg) for x in h.items):
            return [value(x.key, env, heap) for x in h.items]
        raise Unknown
    if t == 'dict' and len(k) == 3 and k[1] is None:
        return {value(a, env, heap): value(b, env, heap) for a, b in k[2]}
    if t == 'item':
        b = value(k[1], env, heap)
        i = k[2]
        if i[0] == 't' and len(i) == 5 and i[1] == ('c', 'str', 'slice'):
            i = slice(*[value(x, env, heap) for x in i[2:]])
        else:
            i = value(i, env, heap)
        if not isinstance(b, (str, bytes, list, tuple)):
            raise Unknown
        return b[i]
    if t == 'un':
        v = value(k[2], env, heap)
        return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Not': lambda: not v, 'Invert': lambda: ~v}[k[1]]()
    if t == 'bin':
        f = BIN.get(k[1])
        if f is None:
            raise Unknown
        a, b = value(k[2], env, heap), value(k[3], env, heap)
        if k[1] == '%' and isinstance(a, (str, bytes)) or isinstance(a, int) and abs(a) > 10**9:
            raise Unknown
        return f(a, b)
    if t == 'pure' and isinstance(k[1], str):
        xs = [value(x, env, heap) for x in k[2:]]
        if not all(isinstance(x, PLAIN) for x in xs):
            raise Unknown
        if k[1].startswith('.'):
            if k[1][1:] not in METHODS or not isinstance(xs[0], (str, bytes)):
                raise Unknown
            return getattr(xs[0], k[1][1:])(*xs[1:])
        if k[1] in FUNCTIONS:
            return FUNCTIONS[k[1]](*xs)
    raise Unknown


def leaves(k, inputs, out):
    """The inputs a term mentions, and its texts and numbers."""
    if not isinstance(k, tuple):
        return
    if k in inputs:
        out[0].add(k)
        return
    if len(k) == 3 and k[0] == 'c':
        out[1].add(k[2] if isinstance(k[2], (str, int, float)) and not isinstance(k[2], bool) else None)
        return
    for x in k:
        leaves(x, inputs, out)


def counterexample(new, old, inputs, heap):
    """Values of the inputs for which all the predicates have the value given, the old ones included; or None.

    Only the old predicates that mention an input involved (or one they relate it to) matter.
    """
    out = (set(), set())
    for k, v in new:
        leaves(k, inputs, out)
    preds = list(new)
    rest = list(old.items())
    more = True
    while more:
        more = False
        for p in list(rest):
            o = (set(), set())
            leaves(p[0], inputs, o)
            if o[0] & out[0]:
                rest.remove(p)
                preds.append(p)
                out[0].update(o[0])
                out[1].update(o[1])
                more = True
    names = sorted(out[0], key=str)
    if not names or len(names) > 4:
        return None
    consts = sorted({c for c in out[1] if isinstance(c, str) and len(c) < 40})[:6]
    numbers = sorted({c for c in out[1] if isinstance(c, (int, float))})[:4]
    choices = []
    for i, n in enumerate(names):
        ts = inputs[n]
        if not ts or not all(t in VALUES for t in ts):
            return None
        vs = []
        for t in sorted(ts):
            vs.extend(VALUES[t])
            if t == 'builtins.str':
                vs.extend(c for c in consts)
                vs.extend(x for c in consts[:3] for x in (c + 'x', 'x' + c, c.upper()))
            elif t in ('builtins.int', 'builtins.float'):
                vs.extend(type(VALUES[t][0])(c + d) for c in numbers for d in (-1, 0, 1) if abs(c) < 1e12)
        # Different inputs start with different values.
        choices.append(vs[i % len(vs):] + vs[:i % len(vs)])
    for combo in itertools.islice(itertools.product(*choices), LIMIT):
        env = dict(zip(names, combo))
        for k, v in preds:
            try:
                x = value(k, env, heap)
            except Exception:
                break
            if bool(x) is not v:
                break
        else:
            return env
    return None
