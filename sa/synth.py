"""Methods Python writes itself: dataclasses, named tuples."""
import ast

MISSING = '<no value given>'


def _name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ''


def _fn(src, node):
    f = ast.parse(src).body[0]
    for x in ast.walk(f):
        if 'lineno' in x._attributes:
            ast.copy_location(x, node)
    return f


def own_fields(node):
    """[(name, default expression or None)] of the annotated names of a class."""
    out = []
    for s in node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and \
                'ClassVar' not in ast.dump(s.annotation):
            out.append((s.target.id, s.value))
    return out


def _spec(default):
    """-> (default expression, factory expression, in __init__, compared, keyword only)"""
    if isinstance(default, ast.Call) and _name(default) == 'field':
        kw = {k.arg: k.value for k in default.keywords}

        def flag(n, d=True):
            v = kw.get(n)
            return v.value if isinstance(v, ast.Constant) else d
        return kw.get('default'), kw.get('default_factory'), flag('init'), flag('compare'), flag(
            'kw_only', False)
    return default, None, True, True, False


def synthesize(ci):
    """Add the methods to ci.members."""
    node = ci.node
    for d in node.decorator_list:
        if _name(d) == 'dataclass':
            _dataclass(ci, d)
            return
    if any(_name(b) == 'NamedTuple' for b in node.bases):
        fields = own_fields(node)
        ci.is_tuple = True
        _tuple(ci, [f for f, _ in fields], {f: d for f, d in fields if d is not None})


def _dataclass(ci, deco):
    node = ci.node
    opts = {k.arg: k.value.value for k in deco.keywords if isinstance(k.value, ast.Constant)} \
        if isinstance(deco, ast.Call) else {}
    fields = {}
    for b in ci.bases:
        for n, s in getattr(b, 'dc_fields', {}).items():
            fields[n] = s
    for n, d in own_fields(node):
        fields[n] = _spec(d) if n not in fields or d is not None else fields[n]
    ci.dc_fields = fields
    names = list(fields)
    kwonly = [n for n in names if fields[n][4] or opts.get('kw_only')]
    args, body, consts = [], [], {}

    def arg(n):
        default, factory, init, _, _ = fields[n]
        if default is None and factory is None:
            return n
        consts[n] = default
        return '%s=%r' % (n, MISSING)
    for n in names:
        default, factory, init, _, _ = fields[n]
        if init and n not in kwonly:
            args.append(arg(n))
    if any(fields[n][2] for n in kwonly):
        args.append('*')
        args += [arg(n) for n in kwonly if fields[n][2]]
    frozen = opts.get('frozen')
    for n in names:
        default, factory, init, _, _ = fields[n]
        new = '(%s)()' % ast.unparse(factory) if factory is not None else \
            ast.unparse(default) if default is not None else None
        value = n
        if new is not None:
            value = new if not init else '%s if %s is %r else %s' % (new, n, MISSING, n)
        elif not init:
            continue
        if frozen:
            body.append('object.__setattr__(self, %r, %s)' % (n, value))
        else:
            body.append('self.%s = %s' % (n, value))
    m = ci.members
    src_init = 'def __init__(self%s):\n    %s' % (''.join(', ' + a for a in args), '\n    '.join(
        body or ['pass']))
    if '__post_init__' in m or any('__post_init__' in getattr(b, 'members', {}) for b in ci.mro[1:]):
        src_init += '\n    self.__post_init__()'
    if opts.get('init', True) and '__init__' not in m:
        m['__init__'] = [_fn(src_init, node)]
    cmp = [n for n in names if fields[n][3]]

    def tup(who):
        return '(%s)' % ''.join('%s.%s, ' % (who, n) for n in cmp)
    if opts.get('eq', True) and '__eq__' not in m:
        m['__eq__'] = [_fn(
            'def __eq__(self, other):\n    return type(self) is type(other) and %s == %s' % (
                tup('self'), tup('other')), node)]
    if opts.get('order'):
        for op, sym in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            m.setdefault('__%s__' % op, [_fn('def __%s__(self, other):\n    return %s %s %s' % (
                op, tup('self'), sym, tup('other')), node)])
    if opts.get('repr', True) and '__repr__' not in m:
        m['__repr__'] = [_fn("def __repr__(self):\n    return type(self).__name__ + '(' + ', '.join([%s]) + ')'" % (
            ', '.join("'%s=' + repr(self.%s)" % (n, n) for n in names)), node)]
    if frozen:
        m.setdefault('__setattr__', [_fn(
            "def __setattr__(self, name, value):\n"
            "    raise AttributeError('cannot assign to field ' + repr(name))", node)])
    m['__dataclass_fields__'] = [('assign', ast.parse(repr(names), mode='eval').body)]
    m['__replace__'] = [_fn('def __replace__(self, **changes):\n    d = {%s}\n    d.update(changes)\n'
                            '    return type(self)(**d)' % ', '.join(
                                '%r: self.%s' % (n, n) for n in names if fields[n][2]), node)]


def _tuple(ci, names, defaults):
    node = ci.node
    m = ci.members
    args = ''.join(', %s=%s' % (n, ast.unparse(defaults[n])) if n in defaults else ', ' + n
                   for n in names)
    tup = '(%s)' % ''.join('self.%s, ' % n for n in names)
    src = {
        '__init__': '(self%s):\n    %s' % (args, '\n    '.join(
            ['self.%s = %s' % (n, n) for n in names] or ['pass'])),
        '__iter__': '(self):\n    return iter(%s)' % tup,
        '__len__': '(self):\n    return %d' % len(names),
        '__getitem__': '(self, i):\n    return %s[i]' % tup,
        '__contains__': '(self, x):\n    return x in %s' % tup,
        '__eq__': '(self, other):\n    return isinstance(other, tuple) and %s == tuple(other)' % tup,
        '__lt__': '(self, other):\n    return %s < tuple(other)' % tup,
        '__add__': '(self, other):\n    return %s + tuple(other)' % tup,
        '__repr__': "(self):\n    return %r + '(' + ', '.join([%s]) + ')'" % (
            node.name, ', '.join("'%s=' + repr(self.%s)" % (n, n) for n in names)),
        '_asdict': '(self):\n    return {%s}' % ', '.join('%r: self.%s' % (n, n) for n in names),
        '_replace': '(self, **changes):\n    d = self._asdict()\n    d.update(changes)\n'
                    '    return type(self)(**d)',
        'count': '(self, x):\n    return %s.count(x)' % tup,
        'index': '(self, x):\n    return %s.index(x)' % tup,
    }
    for n in defaults:
        m.pop(n, None)
    for n, s in src.items():
        m.setdefault(n, [_fn('def %s%s' % (n, s), node)])
    mk = _fn('@classmethod\ndef _make(cls, items):\n    return cls(*items)', node)
    m.setdefault('_make', [mk])
    m.setdefault('_fields', [('assign', ast.parse(repr(tuple(names)), mode='eval').body)])

