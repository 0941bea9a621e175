"""Launch files as sources of launch descriptions."""
from launch import LaunchDescription
from launch import LaunchDescriptionSource
from launch.frontend import Parser
from launch.invalid_launch_file_error import InvalidLaunchFileError
from launch.launch_description_sources import AnyLaunchDescriptionSource
from launch.launch_description_sources import FrontendLaunchDescriptionSource
from launch.launch_description_sources import get_launch_description_from_any_launch_file
from launch.launch_description_sources import get_launch_description_from_frontend_launch_file
from launch.launch_description_sources import get_launch_description_from_python_launch_file
from launch.launch_description_sources import PythonLaunchDescriptionSource
from launch.actions import EmitEvent
from launch.actions import ExecuteProcess
from launch.actions import LogInfo
from launch.actions import RegisterEventHandler
from launch.event_handlers import OnExecutionComplete
from launch.event_handlers import OnProcessExit
from launch.event_handlers import OnProcessIO
from launch.event_handlers import OnProcessStart
from launch.event_handlers import OnShutdown
from launch.events import Shutdown as ShutdownEvent
from launch.launch_introspector import LaunchIntrospector
from launch.substitutions import LaunchConfiguration
from launch_xml.launch_description_sources import XMLLaunchDescriptionSource
from launch_xml.parser import Parser as XmlParser
from launch_yaml.launch_description_sources import YAMLLaunchDescriptionSource
from launch_yaml.parser import Parser as YamlParser

from launch.launch_description_sources import InvalidPythonLaunchFileError

from drv.env import *


class Loader:
    """importlib.machinery.SourceFileLoader"""

    def __init__(self, name, path):
        self.name = name
        self.path = path

    def exec_module(self, module):
        log('python', self.path)
        what = FILES.get(self.path)
        if isinstance(what, Exception):
            raise what
        if what != 'no function':
            module.generate_launch_description = generator(self.path, what)


def generator(path, what):
    def generate_launch_description():
        log('generate', path)
        if what == 'fails':
            raise UserError(path)
        return LaunchDescription([Probe(path)])
    return generate_launch_description


class Spec:
    def __init__(self, name, loader):
        self.name = name
        self.loader = loader


class Module:
    def __init__(self, spec):
        self.spec = spec


FILES = {}


def load_markup(cls, file):
    log('markup', file, cls)
    what = FILES.get(file)
    if what != 'markup':
        raise ValueError(file)
    return 'root of ' + file, Markup()


class Markup(Parser):
    """A frontend."""

    @classmethod
    def load(cls, file):
        return load_markup(cls, file)

    def parse_description(self, entity):
        return LaunchDescription([Probe(entity)])


class Other(Markup):
    pass


def model(**files):
    stub('importlib.machinery.SourceFileLoader', Loader)
    stub('importlib.util.spec_from_loader', Spec)
    stub('importlib.util.module_from_spec', Module)
    stub('launch.frontend.parser.Parser.load', load_markup)
    stub('launch.frontend.parser.Parser.is_filename_valid', lambda cls, name: name.endswith('.xml'))
    for k, v in files.items():
        FILES[k.replace('_', '.')] = v


def tags(description, c):
    return [x.tag for x in description.visit(c)]


def d_python():
    """A Python launch file is executed and its function called, once; the description is what it returns."""
    what = pick('good', 'no function', 'fails', 'broken', 'missing')
    model(a_py={'broken': SyntaxError('a'), 'missing': FileNotFoundError('a')}.get(what, what))
    c = make_context()
    r = outcome(get_launch_description_from_python_launch_file, 'a.py')
    check(len(logs('python')) == 1, 'executed once')
    check(len(logs('generate')) == (1 if what in ('good', 'fails') else 0), 'called once')
    if what == 'good':
        check(tags(r[1], c) == ['a.py'], 'the description')
    else:
        check(r[0] == 'raise', 'an error')
        if what == 'fails':
            check(isinstance(r[1], UserError), 'the error of the file')
        if what == 'no function':
            check(isinstance(r[1], InvalidPythonLaunchFileError) and 'generate_launch_description' in str(r[1]),
                  'what is missing')
        if what == 'broken':
            check(isinstance(r[1], SyntaxError), 'the error of the file')


def d_frontend():
    """A markup file is loaded and parsed by the parser asked for."""
    model(a_xml='markup')
    c = make_context()
    p = pick(Markup, Other)
    check(tags(get_launch_description_from_frontend_launch_file('a.xml', parser=p), c) == ['root of a.xml'], 'the description')
    check(logs('markup')[0][2] is p, 'that parser')
    source_ = FrontendLaunchDescriptionSource('a.xml', parser=p)
    check(tags(source_.get_launch_description(c), c) == ['root of a.xml'], 'the same')
    check(logs('markup')[1][2] is p, 'that parser')
    get_launch_description_from_any_launch_file('a.xml', parser=p)
    check(logs('markup')[2][2] is p, 'that parser')


def d_formats():
    """The sources of a format use the parser of the format."""
    def loaded(cls, file):
        log('loaded')
        return 'root', Markup()
    model()
    which, cls = pick(('launch_xml.parser.Parser.load', XMLLaunchDescriptionSource),
                      ('launch_yaml.parser.Parser.load', YAMLLaunchDescriptionSource))
    stub(which, loaded)
    c = make_context()
    check(tags(cls('x').get_launch_description(c), c) == ['root'], 'the description')
    check(len(logs('loaded')) == 1 and logs('markup') == [], 'its parser')


def d_any():
    """Any launch file: Python first if it is called so, else the frontends first; the first that works counts."""
    name = pick('a.py', 'a.launch.py', 'a.xml', 'a', 'a.nope', 'd.py/a')
    what = pick('good', 'markup', 'bad', 'fails')
    model()
    FILES[name] = {'bad': SyntaxError('x'), 'markup': 'markup'}.get(what, what)
    if what == 'markup':
        FILES[name] = 'markup'
    c = make_context()
    r = outcome(get_launch_description_from_any_launch_file, name)
    python_first = name in ('a.py', 'a.launch.py')
    n_py, n_mu = len(logs('python')), len(logs('markup'))
    if what == 'good':
        check(tags(r[1], c) == [name], 'as Python')
        check(n_mu == (0 if python_first else 1), 'in order')
    elif what == 'markup':
        if python_first:
            check(n_py == 1, 'in order')
        else:
            check(tags(r[1], c) == ['root of ' + name], 'by the frontends')
            check(n_py == 0, 'in order')
    else:
        check(r[0] == 'raise' and isinstance(r[1], InvalidLaunchFileError), 'invalid')
        check(n_py == 1 and n_mu == 1, 'everything was tried')
        if name not in ('a', 'a.nope', 'd.py/a'):
            check(isinstance(r[1].__cause__, (SyntaxError, UserError) if python_first else ValueError), 'the likely cause')


def d_source():
    """A source evaluates its location when it is asked, and loads the file once."""
    model(a_py='good', b_py='good')
    c = make_context()
    cls = pick(PythonLaunchDescriptionSource, AnyLaunchDescriptionSource)
    name = pick('a.py', 'b.py')
    c.launch_configurations['x'] = 'nope'
    s = cls([LaunchConfiguration('x'), '.py'])
    check(logs('python') == [], 'not yet')
    c.launch_configurations['x'] = name[:1]
    got = s.get_launch_description(c)
    check(tags(got, c) == [name], 'that file')
    check(s.location == name, 'its location')
    again = s.get_launch_description(pick(c, make_context()))
    check(again is got, 'the same')
    check(len(logs('python')) == 1, 'loaded once')


def d_source_failed():
    """A file that cannot be loaded is an error each time, until it can."""
    model(a_py=pick('fails', SyntaxError('x')))
    c = make_context()
    s = PythonLaunchDescriptionSource('a.py')
    check(outcome(s.get_launch_description, c)[0] == 'raise', 'an error')
    check(outcome(s.get_launch_description, c)[0] == 'raise', 'again')
    FILES['a.py'] = 'good'
    check(tags(s.get_launch_description(c), c) == ['a.py'], 'now it can')


def d_source_given():
    """A source made from a description is that description."""
    c = make_context()
    d = LaunchDescription([])
    s = LaunchDescriptionSource(d, pick('<string>', 'here'))
    check(s.try_get_launch_description_without_context() is d, 'it')
    check(s.get_launch_description(c) is d, 'it')
    check(outcome(LaunchDescriptionSource().get_launch_description, c)[0] == 'raise', 'none is an error')


def d_source_given_location():
    """The location of a source is evaluated when it is asked for the description, whatever it was made of."""
    c = make_context()
    c.launch_configurations['x'] = pick('here', '')
    s = LaunchDescriptionSource(LaunchDescription([]), [LaunchConfiguration('x'), '/f'], pick('by hand', ''))
    check(s.location != c.launch_configurations['x'] + '/f', 'not before')
    s.get_launch_description(c)
    check(s.location == c.launch_configurations['x'] + '/f', 'evaluated')
    other = make_context()
    other.launch_configurations['x'] = 'there'
    s.get_launch_description(other)
    check(s.location == c.launch_configurations['x'] + '/f', 'once')


def d_introspect():
    """Looking at a source without a context loads the file if it can, else there is none; never an error."""
    what = pick('good', 'no function', 'fails', 'broken', 'markup')
    model(a_py=SyntaxError('a') if what == 'broken' else what)
    cls = pick(PythonLaunchDescriptionSource, AnyLaunchDescriptionSource)
    where = pick('a.py', ['a', '.py'], LaunchConfiguration('x'))
    s = cls(where)
    r = outcome(s.try_get_launch_description_without_context)
    check(r[0] == 'ok', 'no error')
    c = make_context()
    if isinstance(where, LaunchConfiguration) or what in ('no function', 'fails', 'broken') or (
            what == 'markup' and cls is PythonLaunchDescriptionSource):
        if what != 'markup':
            check(r[1] is None, 'none')
    else:
        check(r[1] is not None, 'the description')
    check(isinstance(s.location, str), 'still where it was')


def d_introspect_later():
    """After a look without a context the location is still evaluated in the context."""
    model(a_py='good', b_py='good')
    c = make_context()
    c.launch_configurations['x'] = 'b'
    s = PythonLaunchDescriptionSource([LaunchConfiguration('x', default='a'), '.py'])
    r = s.try_get_launch_description_without_context()
    check(tags(r, c) == ['a.py'], 'the default')
    check(tags(s.get_launch_description(c), c) == ['b.py'], 'that of the context')


def lines(description):
    return LaunchIntrospector().format_launch_description(description).split('\n')[1:]


def d_describe():
    """Describing a launch description mentions every action once, in order, and executes none."""
    n = pick(0, 1, 2, 3)
    d = LaunchDescription([LogInfo(msg='p%d' % i) for i in range(n)])
    text = lines(d)
    check(logs('execute') == [], 'nothing is executed')
    if n == 0:
        check(text == [''], 'no lines')
    else:
        check(len(text) == n, 'a line for each')
        for i in range(n):
            check(text[i].endswith("LogInfo('p%d')" % i), 'in order')


def d_describe_kinds():
    """Every kind of action can be described."""
    environ()
    what = pick('log', 'emit', 'process', 'handler', 'other', 'mixed')
    h = pick(lambda x: OnProcessExit(on_exit=x), lambda x: OnProcessStart(on_start=x),
             lambda x: OnExecutionComplete(on_completion=x))
    inner = pick(LogInfo(msg='inner'), [LogInfo(msg='inner'), LogInfo(msg='more')], [])
    if what == 'log':
        entities = [LogInfo(msg=[LaunchConfiguration('x'), 'y'])]
    elif what == 'emit':
        entities = [EmitEvent(event=ShutdownEvent())]
    elif what == 'process':
        entities = [ExecuteProcess(cmd=['a', LaunchConfiguration('x')], cwd=pick(None, 'd'), env=pick(None, {'a': 'b'}))]
    elif what == 'handler':
        entities = [RegisterEventHandler(h(inner))]
    elif what == 'other':
        entities = [Probe('x')]
    else:
        entities = [RegisterEventHandler(h(inner)), LogInfo(msg='last')]
    r = outcome(lines, LaunchDescription(entities))
    check(r[0] == 'ok', 'no error')
    text = r[1]
    k = len(inner) if isinstance(inner, list) else 1
    if what == 'process':
        check(len(text) == 1 and 'ExecuteProcess(' in text[0] and "'a'" in text[0], 'the command')
    if what in ('handler', 'mixed'):
        check(len(text) == 2 + k + (what == 'mixed'), 'a line for each')
        for i in range(k):
            check(text[2 + i].endswith("LogInfo('%s')" % ('inner', 'more')[i]), 'in order')
        if what == 'mixed':
            check(text[-1].endswith("LogInfo('last')"), 'in order')


def d_describe_callable():
    """A handler made of a function is described without calling it."""
    def f(event, context):
        fail('called')
    h = pick(lambda: OnProcessExit(on_exit=f), lambda: OnProcessStart(on_start=f), lambda: OnShutdown(on_shutdown=pick(f, LogInfo(msg='x'), [])),
             lambda: OnProcessIO(on_stdout=f))
    r = outcome(lines, LaunchDescription([RegisterEventHandler(h())]))
    check(r[0] == 'ok', 'no error')
    check(len(r[1]) >= 1 and 'RegisterEventHandler(' in r[1][0], 'the action')


def d_source_facts():
    """Before it is loaded the location of a source is told by its parts; the kind of source is told as given."""
    model(a_py='good')
    c = make_context()
    method = pick('mine', '')
    s = LaunchDescriptionSource(None, pick('a.py', ['a', '.py'], ['a', LaunchConfiguration('x')]), method)
    check(s.method == method, 'as given')
    told = s.location
    check(isinstance(told, str) and told != '', 'a text')
    check(s.location == told, 'the same again')
    check(logs('python') == [], 'nothing is loaded for it')
    check(LaunchDescriptionSource(LaunchDescription([]), 'x').method != '', 'there is always some')
