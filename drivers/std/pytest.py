"""pytest 8.4, as far as plugins meet it (never run)."""


__version__ = '8.4.2'


class PytestWarning(UserWarning):
    pass


class HookImpl:
    """The decorator of pytest.hookimpl(...)."""

    def __init__(self, options):
        self.options = options

    def __call__(self, function):
        function.pytest_impl = self.options
        return function


def hookspec(function=None, **options):
    if function is None:
        return HookSpec(options)
    return HookSpec(options)(function)


class HookSpec:
    """The decorator of pytest.hookspec(...)."""

    def __init__(self, options):
        self.options = options

    def __call__(self, function):
        function.pytest_spec = self.options
        return function


def hookimpl(function=None, **options):
    if function is None:
        return HookImpl(options)
    return HookImpl(options)(function)


class Mark:

    def __init__(self, name, args, kwargs):
        self.name = name
        self.args = args
        self.kwargs = kwargs


class MarkDecorator:

    def __init__(self, mark):
        self.mark = mark
        self.name = mark.name
        self.args = mark.args
        self.kwargs = mark.kwargs

    def with_args(self, *args, **kwargs):
        return MarkDecorator(Mark(self.name, self.args + args, dict(self.kwargs, **kwargs)))

    def __call__(self, *args, **kwargs):
        if len(args) == 1 and not kwargs and callable(args[0]):
            args[0].pytestmark = list(getattr(args[0], 'pytestmark', [])) + [self.mark]
            return args[0]
        return self.with_args(*args, **kwargs)


class MarkGenerator:

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return MarkDecorator(Mark(name, (), {}))


mark = MarkGenerator()


class FixtureFunctionMarker:

    def __init__(self, scope, params, autouse, ids, name):
        self.scope = scope
        self.params = params
        self.autouse = autouse
        self.ids = ids
        self.name = name

    def __call__(self, function):
        return FixtureFunctionDefinition(function, self)


class FixtureFunctionDefinition:

    def __init__(self, function, fixture_function_marker):
        self.name = fixture_function_marker.name or function.__name__
        self._fixture_function_marker = fixture_function_marker
        self._fixture_function = function
        # functools.update_wrapper
        self.__name__ = function.__name__
        for k, v in function.__dict__.items():
            setattr(self, k, v)

    def __call__(self, *args, **kwargs):
        raise RuntimeError('fixture called directly')

    def _get_wrapped_function(self):
        return self._fixture_function


def fixture(fixture_function=None, *, scope='function', params=None, autouse=False, ids=None, name=None):
    marker = FixtureFunctionMarker(scope, params, autouse, ids, name)
    return marker if fixture_function is None else marker(fixture_function)


class Node:
    """A node of the tree of what is collected."""

    def __init__(self, name=None, parent=None, config=None, session=None, fspath=None, path=None, nodeid=None):
        if not World.from_parent:
            raise Failed('Direct construction is not allowed')
        self.name = name
        self.parent = parent
        self.path = parent.path if path is None else path
        self.config = parent.config if config is None else config
        self.session = parent.session if session is None else session
        self.own_markers = []

    @classmethod
    def from_parent(cls, parent, **kw):
        World.from_parent = True
        try:
            return cls(parent=parent, **kw)
        finally:
            World.from_parent = False

    def add_marker(self, marker, append=True):
        if isinstance(marker, str):
            marker = getattr(mark, marker)
        if not isinstance(marker, MarkDecorator):
            raise ValueError('is not a string or pytest.mark.* Marker')
        self.own_markers = self.own_markers + [marker.mark] if append else [marker.mark] + self.own_markers

    def iter_markers(self, name=None):
        node = self
        while node is not None:
            for m in getattr(node, 'own_markers', []):
                if name is None or m.name == name:
                    yield m
            node = node.parent

    def get_closest_marker(self, name, default=None):
        for m in self.iter_markers(name):
            return m
        return default

    def repr_failure(self, excinfo):
        return 'as pytest does: %s' % (excinfo.value,)


class Collector(Node):
    pass


class File(Collector):

    def __init__(self, fspath=None, path_or_parent=None, path=None, name=None, parent=None, **kw):
        super().__init__(name=path.name if name is None else name, parent=parent, path=path, **kw)

    @classmethod
    def from_parent(cls, parent, *, fspath=None, path=None, **kw):
        return super().from_parent(parent=parent, fspath=fspath, path=path, **kw)


class Module(File):
    """Imported, and looked through by pytest itself."""

    def collect(self):
        return self.session.looks_through(self)


class Package(Module):
    """A directory, or its __init__.py in older versions."""

    def collect(self):
        if self.path.name.endswith('.py'):
            if World.version >= (8, 0):
                raise NotADirectoryError(self.path)
            return super().collect()
        return []


class Item(Node):

    def __init__(self, name, parent=None, config=None, session=None, nodeid=None, **kw):
        super().__init__(name, parent, config, session, nodeid=nodeid)


class ReprFileLocation:

    def __init__(self, path, lineno, message):
        self.path = path
        self.lineno = lineno
        self.message = message


def import_path(path, *, mode='prepend', root, **kwargs):
    if list(kwargs) != (['consider_namespace_packages'] if World.version >= (8, 1) else []):
        raise TypeError('import_path() and its arguments')
    return World.import_path(path, mode, root)


class World:
    """Set by the driver."""

    import_path = None
    from_parent = False
    version = (8, 4)


class CallSpec:

    def __init__(self, params):
        self.params = params


class Function:
    """A test item."""

    def __init__(self, name, parent, obj=None):
        self.name = name
        self.originalname = name
        self.parent = parent
        self.obj = parent.names[name] if obj is None else obj
        self.own_markers = list(getattr(self.obj, 'pytestmark', []))
        self.cls = None
        self.module = parent
        self.session = parent.session
        self.funcargs = {}
        self.extra = []
        self.warned = []
        self._fixtureinfo = None

    @classmethod
    def from_parent(cls, parent, *, name, **kwargs):
        return cls(name, parent, **kwargs)

    def iter_markers(self, name=None):
        for m in self.extra + self.own_markers[::-1]:
            if name is None or m.name == name:
                yield m

    def get_closest_marker(self, name, default=None):
        for m in self.iter_markers(name):
            return m
        return default

    def add_marker(self, marker, append=True):
        m = getattr(marker, 'mark', marker)
        self.extra = self.extra + [m] if append else [m] + self.extra

    def warn(self, warning):
        self.warned.append(warning)


class Outcome:
    """What a hook gave (pluggy.Result)."""

    def __init__(self, value, exception):
        self.value = value
        self.exception = exception

    @property
    def excinfo(self):
        if self.exception is None:
            return None
        return (type(self.exception), self.exception, None)

    def get_result(self):
        if self.exception is not None:
            raise self.exception
        return self.value


class OutcomeException(BaseException):

    def __init__(self, msg=None, pytrace=True):
        super().__init__(msg)
        self.msg = msg


class Failed(OutcomeException):
    pass


class Skipped(OutcomeException):
    pass


class Fail:
    Exception = Failed

    def __call__(self, reason='', pytrace=True):
        raise Failed(reason, pytrace)


class Skip:
    Exception = Skipped

    def __call__(self, reason='', **kwargs):
        raise Skipped(reason)


fail = Fail()
skip = Skip()


ORDER = ['function', 'class', 'module', 'package', 'session']


class Scope:

    def __init__(self, value):
        self.value = value

    def __lt__(self, other):
        return ORDER.index(self.value) < ORDER.index(other.value)

    def __gt__(self, other):
        return ORDER.index(self.value) > ORDER.index(other.value)


def scopemismatch(current, new):
    return ORDER[::-1].index(new) > ORDER[::-1].index(current)


def transfer_markers(*args, **kwargs):
    pass
