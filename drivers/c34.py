"""Launch tests found and run by pytest, and by the command launch_test."""
import pytest
from launch.actions import IncludeLaunchDescription
from launch.conditions import IfCondition
from launch.substitutions import TextSubstitution
from launch_testing.pytest import hooks

from drv.ltw import *

OPTIONS = {'*': {'modules': {
    'unittest': ['case'], 'xml.etree.ElementTree': [],
    'pytest': ['=_pytest.outcomes', '=_pytest._code.code', '=_pytest.pathlib']}}}


class Path:
    """pathlib.Path"""

    def __init__(self, path):
        self.text = str(path)
        self.name = self.text.split('/')[-1]
        self.stem = self.name.split('.')[0]

    def __str__(self):
        return self.text

    def __eq__(self, other):
        return isinstance(other, Path) and self.text == other.text

    def __hash__(self):
        return 5


class LegacyPath:
    """py.path.local"""

    def __init__(self, path):
        self.strpath = str(path)
        self.basename = self.strpath.split('/')[-1]

    def __str__(self):
        return self.strpath


class Options:
    """The parser of pytest: what the options added by the plugin make of a command line."""

    def __init__(self):
        self.values = {}
        self.added = {}

    def addoption(self, *names, action='store', nargs=None, default=None, dest=None, help=None, **kwargs):
        for n in names:
            check(n not in self.values, 'an option is added once')
            self.values[n] = default
            self.added[n] = (action, nargs)

    def getgroup(self, name, description='', after=None):
        return self

    def parse(self, name, *values):
        action, nargs = self.added[name]
        if nargs is None:
            check(len(values) == 1, 'an option may have many values')
            v = values[0]
        else:
            check(nargs == '*' or nargs == '+' and len(values) > 0, 'an option may have many values')
            v = list(values)
        if action == 'append':
            self.values[name] = list(self.values[name] or []) + [v]
        elif action == 'extend':
            self.values[name] = list(self.values[name] or []) + v
        else:
            self.values[name] = v


class Config:
    """The configuration of pytest."""

    rootpath = '/tests'

    def __init__(self):
        self.options = Options()
        self.lines = []
        hooks.pytest_addoption(self.options)
        hooks.pytest_configure(self)
        self.options.values['verbose'] = 0
        self.options.values['importmode'] = 'prepend'

    def addinivalue_line(self, name, line):
        self.lines.append((name, line))

    def getini(self, name):
        return False

    def getoption(self, name, default=None, skip=False):
        for n in (name, '--' + name):
            if n in self.options.values:
                return self.options.values[n]
        return default


class Relay:
    """What calls the hooks of all plugins: the last one first, unless they ask for something else."""

    def pytest_launch_collect_makemodule(self, **kwargs):
        check(sorted(kwargs) == ['entrypoint', 'parent', 'path'], 'arguments of the hook')
        ours = hooks.pytest_launch_collect_makemodule
        last = getattr(ours, 'pytest_impl', {}).get('trylast', False)
        for f in (Tree.others + [ours] if last else [ours] + Tree.others):
            r = f(**kwargs)
            if r is not None:
                return r
        return None


class Session:

    def gethookproxy(self, path):
        return Relay()

    def looks_through(self, module):
        m = Tree.module(str(module.path))
        return ['ordinary ' + str(module.path)] if m is not None else []


class Dir(pytest.Node):
    """A directory of test modules."""


class Tree:
    """The test modules there are; others: what other plugins make of a launch test."""

    modules = {}
    others = []
    imported = {}
    config = None

    def module(path):
        m = Tree.modules[path]
        if isinstance(m, BaseException):
            raise m
        return m

    def import_path(path, mode, root):
        path = Path(path)
        if mode == 'importlib':
            check(root is not None, 'importlib needs to know where the names begin')
        else:
            known = Tree.imported.get(path.name, str(path))
            if known != str(path):
                raise ImportError('import file mismatch')
            Tree.imported[path.name] = str(path)
        m = Tree.module(str(path))
        m.__name__ = path.stem
        return m

    def collect():
        """-> {path: what pytest collects, or the error it reports}"""
        root = Dir.from_parent(None, name='tests', config=Tree.config, session=Session(), path=Path('/tests'))
        return {p: outcome(Tree.collect_one, root, Path(p)) for p in Tree.modules}

    def collect_one(root, path):
        r = outcome(hooks.pytest_pycollect_makemodule, path=LegacyPath(path), parent=root)
        check(r[0] == 'ok', 'a module never prevents the others from being collected')
        module = r[1]
        if module is None:
            module = pytest.Module.from_parent(root, path=path)
        check(module.parent is root and Path(module.path) == path, 'a node of the tree')
        return (module, list(module.collect()))


def session(*stimuli, version='8.4.2', **options):
    test_world(*stimuli)
    stub('pathlib.Path', Path)
    pytest.World.import_path = Tree.import_path
    pytest.__version__ = version
    pytest.World.version = tuple([int(x) for x in version.split('.')[:2]])
    Tree.config = Config()
    for k, v in options.items():
        Tree.config.options.values[k] = v
    Tree.modules = {}
    Tree.others = []
    Tree.imported = {}
    Bad.where = None
    Bad.how = AssertionError


def launch_module(description, *classes):
    names = {'T%d' % i: c for i, c in enumerate(classes or (Before, After))}
    return Namespace(generate_test_description=description, **names)


def ordinary(r):
    """Has it been left to pytest, which does what it always does?"""
    return r[0] == 'ok' and isinstance(r[1][0], pytest.Module) and len(r[1][1]) == 1 and \
        isinstance(r[1][1][0], str)


def is_launch_test(r):
    return r[0] == 'ok' and not isinstance(r[1][0], pytest.Module) and len(r[1][1]) == 1 and \
        isinstance(r[1][1][0], pytest.Item)


def d_collect():
    """Modules with a marked description are one launch test each; all others are left to pytest."""
    session(version=pick('8.4.2', '8.1.0', '8.0.2', '7.4.4'))
    what = pick('nothing', 'not marked', 'other marks', 'marked', 'marks', 'parametrized')
    path = pick('/tests/test_it.py', '/tests/__init__.py')

    def description():
        return describe()
    f = description
    if what == 'parametrized':
        f = parametrize('a', [1, 2])(f)
    if what in ('other marks', 'marks'):
        f = pytest.mark.slow(f)
    if what in ('marked', 'marks', 'parametrized'):
        f = pytest.mark.launch_test(f)
    if what == 'marks':
        f = pytest.mark.skipif(True, reason='no hardware')(f)
    Tree.modules = {path: Namespace() if what == 'nothing' else launch_module(f),
                    '/tests/test_other.py': Namespace()}
    r = Tree.collect()
    check(ordinary(r['/tests/test_other.py']), 'other modules are left to pytest')
    if what in ('nothing', 'not marked', 'other marks'):
        check(ordinary(r[path]), 'a module without launch test is left to pytest')
        return
    check(is_launch_test(r[path]), 'a launch test')
    item = r[path][1][1][0]
    check(item.parent is r[path][1][0], 'the test of its module')
    names = sorted([m.name for m in item.iter_markers()])
    check(names == (['launch_test', 'skipif', 'slow'] if what == 'marks' else ['launch_test']), 'with the marks')
    for m in item.iter_markers('skipif'):
        check((m.args, m.kwargs) == ((True,), {'reason': 'no hardware'}), 'marks are what they were')


def d_collect_broken():
    """What goes wrong in one module is reported for that module, and for that one only."""
    session(importmode=pick('prepend', 'importlib'), version=pick('8.4.2', '8.0.2'))
    error = pick('syntax', 'import', 'skipped', 'failed', 'other')
    e = {'syntax': SyntaxError('x'), 'import': ImportError('x'), 'skipped': pytest.Skipped('x'),
         'failed': pytest.Failed('x'), 'other': ZeroDivisionError('x')}[error]

    def description():
        return describe()
    launch_test = launch_module(pytest.mark.launch_test(description))
    Tree.modules = {'/tests/test_broken.py': e, '/tests/test_it.py': launch_test,
                    '/tests/test_other.py': Namespace()}
    r = Tree.collect()
    check(r['/tests/test_broken.py'] == ('raise', e), 'reported by pytest')
    check(ordinary(r['/tests/test_other.py']), 'other tests are not concerned')
    check(is_launch_test(r['/tests/test_it.py']), 'other launch tests are not concerned')


def d_collect_same_name():
    """Launch tests of the same name are imported as pytest imports tests of the same name."""
    mode = pick('prepend', 'importlib', 'append')
    session(importmode=mode)

    def description():
        return describe()

    def module():
        return launch_module(pytest.mark.launch_test(description))
    Tree.modules = {'/tests/a/test_it.py': module(), '/tests/b/test_it.py': module()}
    r = Tree.collect()
    check(is_launch_test(r['/tests/a/test_it.py']), 'the first is a launch test')
    if mode == 'importlib':
        check(is_launch_test(r['/tests/b/test_it.py']), 'the other as well')


def d_collect_by_others():
    """Other plugins may take the launch tests they know; those they do not know are for all."""
    session()
    takes = pick(True, False)

    class OtherModule(pytest.File):

        def collect(self):
            return ['other']

    def other(path, parent, entrypoint):
        log('asked', entrypoint)
        return OtherModule.from_parent(parent, path=Path(path)) if takes else None
    Tree.others = [other]

    def description():
        return describe()
    f = pytest.mark.launch_test(description)
    Tree.modules = {'/tests/test_it.py': launch_module(f)}
    r = Tree.collect()['/tests/test_it.py']
    check([x[1] for x in logs('asked')] == [f], 'told what the test starts with')
    check(r[0] == 'ok' and (kind(r[1][0]) == 'OtherModule') == takes, 'others come first')
    check(takes or is_launch_test(r), 'else it is a launch test')


def d_known_to_pytest():
    """The mark and the hook are known to pytest."""
    session()
    check([x[1].split(':')[0].split('(')[0] for x in Tree.config.lines if x[0] == 'markers'] == ['launch_test'],
          'the mark is known')
    manager = Manager()
    hooks.pytest_addhooks(manager)
    check(len(manager.specs) == 1, 'hooks for others')
    spec = manager.specs[0].pytest_launch_collect_makemodule
    check(spec.pytest_spec.get('firstresult', False) is True, 'the first one who knows it takes it')


class Manager:

    def __init__(self):
        self.specs = []

    def add_hookspecs(self, module):
        self.specs.append(module)


def launch_item(description, *classes):
    Tree.modules = {'/tests/test_it.py': launch_module(description, *classes)}
    r = Tree.collect()['/tests/test_it.py']
    check(is_launch_test(r), 'it is a launch test')
    return r[1][1][0]


class ExceptionInfo:

    def __init__(self, value):
        self.value = value
        self.type = type(value)


class Writer:

    def __init__(self):
        self.text = ''

    def write(self, text, **kwargs):
        check(text is not None, 'there is something to be shown')
        self.text += text

    def line(self, text='', **kwargs):
        self.text += text + '\n'


def reported(item, e):
    """What pytest shows of a failure."""
    r = item.repr_failure(ExceptionInfo(e))
    if isinstance(r, str):
        return r
    w = Writer()
    r.toterminal(w)
    check(str(r) in (w.text, w.text[:-1]), 'the same everywhere')
    return w.text


def d_runtest():
    """The test fails exactly if one of its runs does, however often it is run."""
    Bad.where = None
    bad = pick(None, 'one', 'three', 'launch', 'skipped')
    again = pick(False, True)
    session(*([interrupt] if bad == 'launch' else [turn, turn, turn, turn]))
    Bad.where = bad
    Bad.how = pick(AssertionError, RuntimeError) if bad == 'one' else AssertionError

    @parametrize('a', [1, 2])
    def description(a):
        if bad == 'skipped' and a == 1:
            raise unittest.SkipTest('no')
        return describe()
    item = launch_item(pytest.mark.launch_test(description))
    r = outcome(item.runtest)
    check((r[0] == 'raise') == (bad in ('one', 'three', 'launch')), 'fails exactly if a run failed')
    per_run = ['one', 'two', 'three']
    times = 1 if bad == 'skipped' else 2
    check(executed() == ([] if bad == 'launch' else per_run * times), 'all runs ran')
    if r[0] == 'raise':
        text = reported(item, r[1])
        names = ['test_' + x for x in (per_run if bad == 'launch' else [bad])]
        for n in per_run:
            check((n in text) == ('test_' + n in names), 'names exactly what failed')
        check(('it is so' in text) == (bad != 'launch'), 'with the reason')
        check(bad == 'launch' or text.count('it is so') == 2, 'of every run')
    if again and bad != 'launch':
        second = outcome(item.runtest)
        check(second[0] == r[0], 'the same when it is run again')
        check(executed() == per_run * times * 2, 'all runs ran again')
        check(r[0] == 'ok' or reported(item, second[1]) == reported(item, r[1]), 'reported as before')


def interrupt():
    World.service.shutdown(force_sync=True)


class Odd(unittest.TestCase):

    def setUpClass():
        if Bad.where == 'class':
            raise RuntimeError('no class')

    @unittest.expectedFailure
    def test_odd(self):
        log('test', 'odd')
        check(Bad.where != 'class', 'not without its class')
        if Bad.where != 'fine':
            raise AssertionError('as expected')

    def test_subs(self):
        for i in range(2):
            with self.subTest(i=i):
                if Bad.where == 'sub' and i == 1:
                    self.fail('second')


def d_reported():
    """Everything that makes a launch test fail is in its report, whatever it is."""
    bad = pick(None, 'class', 'fine', 'sub')
    session(turn)
    Bad.where = bad

    def description():
        return describe()
    item = launch_item(pytest.mark.launch_test(description), Odd)
    r = outcome(item.runtest)
    check((r[0] == 'raise') == (bad is not None), 'fails if anything went wrong')
    if bad is not None:
        check(str(r[1]) != '', 'in short')
        text = reported(item, r[1])
        check({'class': 'no class', 'fine': 'test_odd', 'sub': 'second'}[bad] in text, 'what went wrong')
        check({'class': 'Odd', 'fine': 'Odd.test_odd', 'sub': 'Odd.test_subs'}[bad] in text, 'and where')
        check(bad == 'fine' or 'test_odd' not in text, 'nothing else')
        crash = item.repr_failure(ExceptionInfo(r[1])).reprcrash.message
        check({'class': 'Odd', 'fine': 'test_odd', 'sub': 'test_subs'}[bad] in crash, 'in the summary, too')


class One(unittest.TestCase):

    def test_it(self, a):
        log('test', a)
        if a == Bad.where:
            self.fail('it is %d' % a)


class OneAfter(One):
    __post_shutdown_test__ = True


def d_runtest_any():
    """One run that fails is enough, and what it is is told."""
    session(turn, turn, turn)
    Bad.where = bad = pick(None, 1, 2, 3)

    @parametrize('a', [1, 2, 3])
    def description(a):
        return describe()
    item = launch_item(pytest.mark.launch_test(description), pick(One, OneAfter))
    r = outcome(item.runtest)
    check(executed() == [1, 2, 3], 'each run has its test')
    check((r[0] == 'raise') == (bad is not None), 'fails exactly if a run failed')
    if bad is not None:
        text = reported(item, r[1])
        for i in (1, 2, 3):
            check(('it is %d' % i in text) == (i == bad), 'the reason, of that run')


class Nothing(unittest.TestCase):
    pass


def d_reported_nothing():
    """A launch that ends too early fails a launch test even if there is no test in it."""
    session(interrupt)

    def description():
        return describe()
    item = launch_item(pytest.mark.launch_test(description), Nothing)
    r = outcome(item.runtest)
    check(r[0] == 'raise', 'it fails')
    check(outcome(reported, item, r[1])[0] == 'ok', 'can be reported')


def d_other_failure():
    """Other errors are reported as pytest does."""
    session(turn)
    what = pick('parameters', 'description')

    def description():
        raise RuntimeError('broken')

    def more(a):
        return describe()
    item = launch_item(pytest.mark.launch_test(more if what == 'parameters' else description))
    r = outcome(item.runtest)
    check(r[0] == 'raise', 'it fails')
    check(executed() == [] and logs('launch') == [], 'nothing is run')
    text = reported(item, r[1])
    check(text.startswith('as pytest does: ') and ('broken' in text) == (what == 'description'),
          'with the reason')


def d_launch_arguments():
    """Launch arguments given to pytest reach the launch, the last one wins; a wrong one is an error."""
    session(turn)
    options = Tree.config.options
    given = pick('none', 'one', 'two', 'twice', 'wrong')
    if given != 'none':
        options.parse('--launch-args', *{'one': ['x:=1'], 'two': ['y:=7', 'x:=2'], 'twice': ['x:=1', 'y:=7'],
                                         'wrong': ['x']}[given])
    if given == 'twice':
        options.parse('--launch-args', 'x:=3')

    def description():
        def seen(context):
            log('configs', context.launch_configurations['x'], context.launch_configurations.get('y'))
        return describe(DeclareLaunchArgument('x', default_value='0'), OpaqueFunction(function=seen))
    item = launch_item(pytest.mark.launch_test(description))
    r = outcome(item.runtest)
    if given == 'wrong':
        check(r[0] == 'raise' and executed() == [], 'refused')
        return
    check(r == ('ok', None), 'the test passes')
    check([x[1:] for x in logs('configs')] == [
        {'none': ('0', None), 'one': ('1', None), 'two': ('2', '7'), 'twice': ('3', '7')}[given]],
        'all of them, the last one wins')


class Runner:
    """Somebody's own runner."""

    def __init__(self, test_runs, launch_file_arguments=[], debug=False):
        log('runner', list(launch_file_arguments), debug)
        self.test_runs = test_runs

    def validate(self):
        log('validate')
        if Bad.where == 'validate':
            raise RuntimeError('not valid')

    def run(self):
        log('run', len(self.test_runs))
        return {r: unittest.TestResult() for r in self.test_runs}


class OwnModule(hooks.LaunchTestModule):

    def makeitem(self, *args, **kwargs):
        return hooks.LaunchTestItem.from_parent(*args, runner_cls=Runner, **kwargs)


def d_own_runner():
    """Others may bring a runner of their own; it is debugged only if pytest is verbose."""
    session()
    Bad.where = pick(None, 'validate')
    verbose = pick(-1, 0, 1)
    Tree.config.options.values['verbose'] = verbose
    Tree.config.options.parse('--launch-args', 'x:=1')
    Tree.others = [lambda path, parent, entrypoint: OwnModule.from_parent(parent=parent, path=Path(path))]

    def description():
        return describe()
    item = launch_item(pytest.mark.launch_test(description))
    r = outcome(item.runtest)
    check(logs('runner') == [('runner', ['x:=1'], verbose > 0)], 'made with what it needs')
    check([x[0] for x in logs('validate', 'run')] == (['validate'] if Bad.where else ['validate', 'run']),
          'tests are run only if they are valid')
    check((r[0] == 'raise') == (Bad.where is not None), 'fails if it is not valid')


# ------------------------------------------------------------------------------------- launch_test

class ArgumentParser:
    """argparse.ArgumentParser, as far as a command needs it."""

    line = []

    def __init__(self, *args, **kwargs):
        self.arguments = []

    def add_argument(self, *names, action='store', nargs=None, default=None, dest=None, help=None, **kwargs):
        long_names = [n for n in names if n.startswith('--')]
        positional = not names[0].startswith('-')
        d = dest or (names[0] if positional else long_names[0][2:].replace('-', '_'))
        self.arguments.append((names, positional, action, nargs, default, d))

    def parse_args(self, args=None):
        line = list(ArgumentParser.line if args is None else args)
        values = Namespace()
        todo = []
        for names, positional, action, nargs, default, d in self.arguments:
            setattr(values, d, [] if nargs == '*' else False if action == 'store_true' and default is None else default)
            if positional:
                todo.append((d, nargs))
        while line:
            word = line.pop(0)
            if word.startswith('-'):
                known = [x for x in self.arguments if word in x[0]]
                if not known:
                    self.error('unrecognized arguments: ' + word)
                x = known[0]
                setattr(values, x[5], True if x[2] == 'store_true' else line.pop(0))
            elif not todo:
                self.error('unrecognized arguments: ' + word)
            elif todo[0][1] == '*':
                setattr(values, todo[0][0], getattr(values, todo[0][0]) + [word])
            else:
                setattr(values, todo.pop(0)[0], word)
        if todo and todo[0][1] != '*':
            self.error('the following arguments are required')
        return values

    def error(self, message):
        log('usage error', str(message))
        raise SystemExit(2)


class Spec:
    loader = None

    def exec_module(self, module):
        log('loaded', module)
        if Bad.where == 'module':
            raise RuntimeError('no module')


def found(name, path, **kwargs):
    check(name in ('pkg', 'test_it') and path in ('test_it.py', '/here/test_it.py'), 'the module is loaded')
    return Spec


def printed(*args, **kwargs):
    log('printed', *[str(x) for x in args])


def leave(code=None):
    e = SystemExit(code)
    e.code = code
    raise e


def launch_test(module, *words):
    """Run the command -> its exit code"""
    from launch_testing.launch_test import main
    ArgumentParser.line = list(words)
    commands(module)
    r = outcome(main)
    check(r[0] == 'ok' or isinstance(r[1], SystemExit), 'the command ends with an exit code')
    if r[0] == 'ok' or r[1].code is None:
        return 0
    return r[1].code


def commands(module):
    stub('argparse.ArgumentParser', ArgumentParser)
    stub('logging.basicConfig', None)
    stub('sys.exit', leave)
    stub('os.path.isfile', lambda path: path == 'test_it.py' or path == '/here/test_it.py')
    stub('os.path.abspath', lambda path: path if path.startswith('/') else '/here/' + path)
    Spec.loader = Spec()
    stub('importlib.util.spec_from_file_location', found)
    stub('importlib.util.module_from_spec', lambda spec: module)
    ET.ElementTree.written = []


def d_command():
    """The exit code is 0 only if all tests are successful; what is asked for is done."""
    bad = pick(None, 'one', 'module', 'file', 'argument', 'parameters')
    test_world(turn)
    Bad.where = bad
    Bad.how = AssertionError

    def description():
        def seen(context):
            log('configs', context.launch_configurations['x'])
        return describe(DeclareLaunchArgument('x', default_value='0'), OpaqueFunction(function=seen))

    def more(a):
        return describe()
    module = launch_module(more if bad == 'parameters' else description)
    words = ['test.py' if bad == 'file' else 'test_it.py', 'x:=1', 'y' if bad == 'argument' else 'y:=2', 'x:=3']
    xml = pick(False, True)
    if xml:
        words = words[:1] + ['--junit-xml', '/out/it.xml'] + words[1:]
    package = pick(False, True)
    if package:
        words = ['--verbose', '--package-name', 'pkg'] + words
    code = launch_test(module, *words)
    check((code == 0) == (bad is None), 'success only if all tests are successful')
    ran = bad in (None, 'one')
    check(executed() == (['one', 'two', 'three'] if ran else []), 'tests run if all is well')
    check([x[1] for x in logs('configs')] == (['3'] if ran else []), 'with the arguments')
    check([x[0] for x in ET.ElementTree.written] == (['/out/it.xml'] if xml and ran else []), 'the report')
    check((len(logs('usage error')) == 1) == (bad not in (None, 'one')), 'says what is wrong')
    for p, root in ET.ElementTree.written:
        check([x.get('name') for x in root] == [('pkg' if package else 'test_it') + '.test_it.launch_tests'],
              'names of the report')


def d_show_arguments():
    """The arguments are shown, all of them, and nothing is run."""
    session()
    stub('builtins.print', printed)
    which = pick('none', 'one', 'default', 'conditional', 'many')
    option = pick('-s', '--show-args')

    def description():
        plain = DeclareLaunchArgument('plain', description='what it is')
        default = DeclareLaunchArgument('other', default_value=['a', TextSubstitution(text='b')],
                                        description='has a default')
        maybe = GroupAction([DeclareLaunchArgument('maybe', default_value='', description='seldom')],
                            condition=IfCondition('true'))
        return describe(*{'none': [], 'one': [plain], 'default': [default], 'conditional': [maybe],
                          'many': [plain, maybe, default]}[which])
    code = launch_test(launch_module(description), 'test_it.py', option)
    check(code == 0, 'success')
    check(executed() == [] and logs('launch') == [] and logs('usage error') == [], 'nothing is run')
    text = '\n'.join([' '.join(x[1:]) for x in logs('printed')])
    shown = {'none': [], 'one': ['plain'], 'default': ['other'], 'conditional': ['maybe'],
             'many': ['plain', 'maybe', 'other']}[which]
    for name, about in (('plain', 'what it is'), ('maybe', 'seldom'), ('other', 'has a default')):
        check((name in text and about in text) == (name in shown), 'exactly the arguments there are')
    check(text.count('(default: ') == len(shown) - (1 if 'plain' in shown else 0), 'their defaults')
    check(("(default: 'a' + 'b')" in text) == ('other' in shown), 'as they are')
    check(('No arguments' in text) == (shown == []), 'says if there are none')
    starred = [x for x in text.split('\n') if '*' in x]
    check(len(starred) == (2 if 'maybe' in shown else 0), 'says which depend on a condition')
    check('maybe' not in shown or 'maybe' in starred[0], 'exactly those')
    check([x for x in shown if text.index(x) == min([text.index(y) for y in shown])] == shown[:1], 'in order')


def d_command_own_runner():
    """A command of others may bring a runner of its own."""
    session()
    from launch_testing.launch_test import run as run_command
    Bad.where = pick(None, 'validate')
    verbose = pick(False, True)

    def description():
        return describe()
    commands(launch_module(description))
    parser = ArgumentParser()
    from launch_testing.launch_test import add_arguments
    add_arguments(parser)
    args = parser.parse_args((['-v'] if verbose else []) + ['test_it.py', 'x:=1'])
    r = outcome(run_command, parser, args, test_runner_cls=Runner)
    check(logs('runner') == [('runner', ['x:=1'], verbose)], 'made with what it needs')
    check([x[0] for x in logs('validate', 'run')] == (['validate'] if Bad.where else ['validate', 'run']),
          'tests are run only if they are valid')
    check(r == ('ok', 0) if Bad.where is None else r[0] == 'raise', 'success only if it is valid')
