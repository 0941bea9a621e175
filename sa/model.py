"""Program model: modules, classes, functions of /repo, parsed from source (never imported)."""
import ast
import builtins
import os
import sys

from . import synth

PACKAGES = {
    'launch': 'launch/launch',
    'launch_xml': 'launch_xml/launch_xml',
    'launch_yaml': 'launch_yaml/launch_yaml',
    'launch_testing': 'launch_testing/launch_testing',
    'launch_pytest': 'launch_pytest/launch_pytest',
}


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.bindings = {}      # name -> list of binding nodes (in textual order)
        self.augments = []      # module level statements with effects (Expr / AugAssign / subscript)
        self._collect(tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.bindings.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    tgt = a.name if a.asname else a.name.split('.')[0]
                    self.bindings.setdefault(nm, []).append(('import', tgt))
            elif isinstance(s, ast.ImportFrom):
                base = self.abs_from(s)
                for a in s.names:
                    if a.name == '*':
                        self.bindings.setdefault('*', []).append(('star', base))
                    else:
                        self.bindings.setdefault(a.asname or a.name, []).append(
                            ('from', base, a.name))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._target(t, s)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self._target(s.target, s)
            elif isinstance(s, (ast.If,)):
                if 'TYPE_CHECKING' in ast.dump(s.test):
                    self._collect(s.body)
                else:
                    v = version_test(s.test)
                    if v is not False:
                        self._collect(s.body)
                    if v is not True:
                        self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                # the handlers are alternatives: prefer the body's binding
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)
            elif isinstance(s, ast.With):
                self._collect(s.body)

    def _target(self, t, s):
        if isinstance(t, ast.Name):
            self.bindings.setdefault(t.id, []).append(('assign', s, None))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    self.bindings.setdefault(e.id, []).append(('assign', s, i))

    def abs_from(self, s):
        if not s.level:
            return s.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        return '.'.join(parts + ([s.module] if s.module else []))


class ClassInfo:
    def __init__(self, model, mod, node, qual):
        self.model, self.mod, self.node = model, mod, node
        self.qual = qual
        self.name = node.name
        self.members = {}
        self._bases = None
        self._mro = None
        self.is_tuple = False
        for s in node.body:
            self._member(s)
        synth.synthesize(self)

    def _member(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            nm = s.name
            if nm.startswith('__') and not nm.endswith('__'):
                nm = '_%s%s' % (self.name.lstrip('_'), nm)
            self.members.setdefault(nm, []).append(s)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    nm = t.id
                    if nm.startswith('__') and not nm.endswith('__'):
                        nm = '_%s%s' % (self.name.lstrip('_'), nm)
                    self.members.setdefault(nm, []).append(('assign', s.value))
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if s.value is not None:
                self.members.setdefault(s.target.id, []).append(('assign', s.value))
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self._member(b)

    @property
    def bases(self):
        """List of ClassInfo or dotted external name."""
        if self._bases is None:
            out = []
            for b in self.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.model.static_resolve(self.mod, b)
                if not isinstance(r, (ClassInfo, str)):
                    r = ast.unparse(b)
                out.append(r)
            self._bases = out
        return self._bases

    @property
    def mro(self):
        """C3-ish linearisation; entries are ClassInfo or dotted external strings."""
        if self._mro is None:
            self._mro = []          # recursion guard
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro) if isinstance(b, ClassInfo) else [b])
            seqs.append(list(self.bases))
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                cand = None
                for s in seqs:
                    if not any(s[0] in t[1:] for t in seqs):
                        cand = s[0]
                        break
                if cand is None:
                    cand = seqs[0][0]
                out.append(cand)
                seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            self._mro = out
        return self._mro

    def is_sub(self, name):
        """Is this class a subclass of the class with that qualified/external name?"""
        for c in self.mro:
            q = c.qual if isinstance(c, ClassInfo) else c
            if q == name:
                return True
            if not isinstance(c, ClassInfo) and ext_is_sub(c, name):
                return True
        return name in ('builtins.object', 'object')

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassInfo)
                and c not in ('object', 'builtins.object', 'typing.Generic', 'typing.Protocol', 'abc.ABC',
                              'typing.NamedTuple', 'enum.Enum')]

    def __repr__(self):
        return '<class %s>' % self.qual


def version_test(e):
    """The value of a test of the version of Python, of that of the sandbox."""
    if any(isinstance(n, ast.Name) and n.id != 'sys' or isinstance(n, (ast.Call, ast.Subscript))
           for n in ast.walk(e)) or 'version_info' not in ast.dump(e):
        return None
    try:
        return bool(eval(compile(ast.Expression(e), '<test>', 'eval'), {'__builtins__': {}, 'sys': sys}))
    except Exception:
        return None


EXT_BASES = {
    'typing.NamedTuple': 'builtins.tuple',
    'enum.IntEnum': 'builtins.int', 'enum.StrEnum': 'builtins.str',
    'lark.exceptions.LarkError': 'builtins.Exception',
    'lark.exceptions.UnexpectedInput': 'lark.exceptions.LarkError',
    'lark.exceptions.UnexpectedCharacters': 'lark.exceptions.UnexpectedInput',
    'lark.exceptions.UnexpectedEOF': 'lark.exceptions.UnexpectedInput',
    'lark.exceptions.UnexpectedToken': 'lark.exceptions.UnexpectedInput',
    'lark.exceptions.VisitError': 'lark.exceptions.LarkError',
    'asyncio.CancelledError': 'builtins.BaseException',
    'asyncio.TimeoutError': 'builtins.Exception',
    'asyncio.InvalidStateError': 'builtins.Exception',
    'concurrent.futures.CancelledError': 'builtins.Exception',
    'subprocess.CalledProcessError': 'builtins.Exception',
    'unittest.SkipTest': 'builtins.Exception',
    'unittest.case.SkipTest': 'builtins.Exception',
    'pytest.PytestWarning': 'builtins.UserWarning',
    'asyncio.Task': 'asyncio.Future',
    'ament_index_python.packages.PackageNotFoundError': 'builtins.KeyError',
}


# What is read from drivers/prelude.py instead of the library.
PRELUDE = {
    'collections.ChainMap': 'ChainMap', 'contextlib.ExitStack': 'ExitStack',
    'contextlib.closing': 'Closing', 'contextlib.nullcontext': 'NullContext',
    'contextlib.suppress': 'Suppress', 'functools.cache': 'lru_cache',
    'functools.lru_cache': 'lru_cache', 'functools.reduce': 'reduce',
    'itertools.accumulate': 'accumulate', 'itertools.combinations': 'combinations',
    'itertools.compress': 'compress', 'itertools.cycle': 'Cycle',
    'itertools.dropwhile': 'dropwhile', 'itertools.filterfalse': 'filterfalse',
    'itertools.groupby': 'groupby', 'itertools.islice': 'islice',
    'itertools.pairwise': 'pairwise', 'itertools.permutations': 'permutations',
    'itertools.product': 'product', 'itertools.repeat': 'Repeat', 'itertools.starmap': 'starmap',
    'itertools.takewhile': 'takewhile', 'itertools.tee': 'tee',
    'itertools.zip_longest': 'zip_longest', 'operator.add': 'op_add', 'operator.and_': 'op_and_',
    'operator.attrgetter': 'attrgetter', 'operator.contains': 'op_contains',
    'operator.delitem': 'op_delitem', 'operator.eq': 'op_eq', 'operator.ge': 'op_ge',
    'operator.getitem': 'op_getitem', 'operator.gt': 'op_gt', 'operator.is_': 'op_is_',
    'operator.is_not': 'op_is_not', 'operator.itemgetter': 'itemgetter', 'operator.le': 'op_le',
    'operator.lt': 'op_lt', 'operator.methodcaller': 'methodcaller', 'operator.mod': 'op_mod',
    'operator.mul': 'op_mul', 'operator.ne': 'op_ne', 'operator.neg': 'op_neg',
    'operator.not_': 'op_not_', 'operator.or_': 'op_or_', 'operator.setitem': 'op_setitem',
    'operator.sub': 'op_sub', 'operator.truediv': 'op_truediv', 'operator.truth': 'op_truth',
}


def norm_ext(n):
    if '.' not in n and hasattr(builtins, n):
        return 'builtins.' + n
    return {
        'typing.Text': 'builtins.str', 'typing.List': 'builtins.list', 'typing.Dict': 'builtins.dict',
        'typing.Tuple': 'builtins.tuple', 'typing.Set': 'builtins.set',
        'typing.Iterable': 'collections.abc.Iterable', 'typing.Sequence': 'collections.abc.Sequence',
        'typing.Mapping': 'collections.abc.Mapping', 'typing.Callable': 'collections.abc.Callable',
        'asyncio.exceptions.CancelledError': 'asyncio.CancelledError',
        'builtins.TimeoutError': 'builtins.TimeoutError',
        'asyncio.futures.Future': 'asyncio.Future',
        'builtins.IOError': 'builtins.OSError', 'builtins.EnvironmentError': 'builtins.OSError',
    }.get(n, n)


def ext_is_sub(a, b):
    a, b = norm_ext(a), norm_ext(b)
    if a == b or b == 'builtins.object':
        return True
    if a.startswith('builtins.') and b.startswith('builtins.'):
        A, B = getattr(builtins, a[9:], None), getattr(builtins, b[9:], None)
        if isinstance(A, type) and isinstance(B, type):
            return issubclass(A, B)
    if a.startswith('builtins.') and b.startswith('collections.abc.'):
        import collections.abc
        A, B = getattr(builtins, a[9:], None), getattr(collections.abc, b[16:], None)
        if isinstance(A, type) and B is not None:
            return issubclass(A, B)
    if a in EXT_BASES:
        return ext_is_sub(EXT_BASES[a], b)
    return False


class FuncInfo:
    """Static facts of one function node."""

    def __init__(self, node):
        self.node = node
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.nonlocals, self.globals = set(), set()
        self.locals = set()
        self.is_gen = False
        body = node.body if isinstance(node.body, list) else []
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(p.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        for s in body:
            self._walk(s)
        if isinstance(node, ast.Lambda):
            self._walk(node.body)
        self.locals -= self.nonlocals
        self.locals -= self.globals

    def _walk(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                self._walk_expr_only(g.iter)
            return
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        for c in ast.iter_child_nodes(n):
            self._walk(c)

    def _walk_expr_only(self, n):
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                self.locals.add(c.target.id)
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True


class Model:
    def __init__(self, repo='/repo', overrides=None):
        self.repo = repo
        self.modules = {}
        self.local_classes = {}
        self.genexps = {}
        self.abstract = {}
        self.rewritten = {}
        self.classes = {}
        self._finfo = {}
        overrides = overrides or {}
        for pkg, rel in PACKAGES.items():
            root = os.path.join(repo, rel)
            if not os.path.isdir(root):
                continue
            for d, dirs, files in os.walk(root):
                dirs.sort()
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(d, f)
                    r = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    is_pkg = f == '__init__.py'
                    name = pkg if r == '__init__' else pkg + '.' + (
                        r[:-len('.__init__')] if is_pkg else r)
                    if p in overrides:
                        tree = overrides[p]
                    else:
                        with open(p, encoding='utf-8') as fh:
                            tree = ast.parse(fh.read(), p)
                    self.modules[name] = ModuleInfo(name, p, tree, is_pkg)

    def add_module(self, name, path, source=None):
        if source is None:
            with open(path, encoding='utf-8') as fh:
                source = fh.read()
        self.modules[name] = mi = ModuleInfo(name, path, ast.parse(source, path), False)
        return mi

    def finfo(self, node):
        r = self._finfo.get(id(node))
        if r is None:
            r = self._finfo[id(node)] = FuncInfo(node)
        return r

    def cls(self, mod, node, qual=None):
        r = self.classes.get(id(node))
        if r is None:
            r = self.classes[id(node)] = ClassInfo(
                self, mod, node, qual or (mod.name + '.' + node.name))
            if '<locals>' in r.qual:
                self.local_classes[r.qual] = r
        return r

    def cls_again(self, ci, k):
        key = (id(ci.node), k)
        r = self.classes.get(key)
        if r is None:
            r = self.classes[key] = ClassInfo(self, ci.mod, ci.node, '%s#%d' % (ci.qual, k))
            self.local_classes[r.qual] = r
        return r

    def cls_made(self, mod, name, bases, k):
        """The class of type(name, bases, attributes)."""
        key = ('type', mod.name, name, k) + tuple(
            b.qual if isinstance(b, ClassInfo) else b for b in bases)
        r = self.classes.get(key)
        if r is None:
            node = ast.ClassDef(name=name, bases=[], keywords=[], body=[], decorator_list=[], lineno=0)
            r = self.classes[key] = ClassInfo(self, mod, node, '%s.%s#%s' % (
                mod.name, name, '.'.join(str(x) for x in key[3:])))
            r._bases = list(bases)
            self.local_classes[r.qual] = r
        return r

    def cls_namedtuple(self, mod, name, fields, defaults):
        """The class of collections.namedtuple()."""
        key = ('namedtuple', mod.name, name, tuple(fields), repr(defaults))
        r = self.classes.get(key)
        if r is None:
            node = ast.ClassDef(name=name, bases=[], keywords=[], body=[], decorator_list=[],
                                lineno=0, col_offset=0)
            r = self.classes[key] = ClassInfo(self, mod, node, '%s.%s#nt%d' % (
                mod.name, name, len(self.classes)))
            r._bases = ['typing.NamedTuple']
            r.is_tuple = True
            synth._tuple(r, list(fields), dict(defaults))
            self.local_classes[r.qual] = r
        return r

    # --- static (syntactic) resolution of dotted expressions to classes / modules / externals
    def lookup_static(self, mod, name, seen=()):
        if (mod.name, name) in seen:
            return None
        seen = seen + ((mod.name, name),)
        b = mod.bindings.get(name)
        if not b:
            for st in mod.bindings.get('*', []):
                m = self.modules.get(st[1])
                if m:
                    r = self.lookup_static(m, name, seen)
                    if r is not None:
                        return r
            if mod.is_pkg and mod.name + '.' + name in self.modules:
                return self.modules[mod.name + '.' + name]
            if hasattr(builtins, name):
                return 'builtins.' + name
            return None
        b = b[-1]
        if isinstance(b, ast.ClassDef):
            return self.cls(mod, b)
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ('func', mod, b)
        if b[0] == 'import':
            if b[1] in self.modules:
                return self.modules[b[1]]
            return b[1]
        if b[0] == 'from':
            base, nm = b[1], b[2]
            if base in self.modules:
                r = self.lookup_static(self.modules[base], nm, seen)
                if r is not None:
                    return r
                if base + '.' + nm in self.modules:
                    return self.modules[base + '.' + nm]
                return None
            if base + '.' + nm in self.modules:
                return self.modules[base + '.' + nm]
            return norm_ext(base + '.' + nm)
        if b[0] == 'assign':
            v = b[1].value
            if b[2] is None and isinstance(v, (ast.Name, ast.Attribute, ast.Call)):
                r = self.static_resolve(mod, v)
                if isinstance(r, ClassInfo) or isinstance(v, ast.Call) and isinstance(r, str):
                    return r
            return ('assign', mod, b[1], b[2])
        return None

    def static_resolve(self, mod, e):
        if isinstance(e, ast.Name):
            return self.lookup_static(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.static_resolve(mod, e.value)
            if isinstance(b, ModuleInfo):
                return self.lookup_static(b, e.attr)
            if isinstance(b, str):
                return norm_ext(b + '.' + e.attr)
        if isinstance(e, ast.Call) and not e.args and not e.keywords and \
                self.static_resolve(mod, e.func) == 'logging.getLoggerClass':
            return 'logging.Logger'
        return None

    def find(self, dotted):
        """Resolve a dotted in-repo name ('launch.actions.TimerAction') to class/func/module."""
        if dotted in self.modules:
            return self.modules[dotted]
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if m in self.modules:
                r = self.lookup_static(self.modules[m], parts[i])
                for p in parts[i + 1:]:
                    if isinstance(r, ModuleInfo):
                        r = self.lookup_static(r, p)
                    elif isinstance(r, ClassInfo):
                        for c in r.mro:
                            if isinstance(c, ClassInfo) and p in c.members:
                                r = ('method', c, c.members[p][-1])
                                break
                        else:
                            return None
                    else:
                        return None
                return r
        return None
