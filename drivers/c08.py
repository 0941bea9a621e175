"""Including a description passes the arguments and checks the required ones."""
import os

from launch import LaunchDescription
from launch import LaunchDescriptionSource
from launch.actions import DeclareLaunchArgument
from launch.actions import GroupAction
from launch.actions import IncludeLaunchDescription
from launch.actions import ResetLaunchConfigurations
from launch.actions import SetLaunchConfiguration
from launch.substitutions import LaunchConfiguration
from launch.utilities import visit_all_entities_and_collect_futures

from drv.env import *


class Spy(Action):

    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    def execute(self, context):
        log('spy', self.tag, dict(context.launch_configurations), context.get_locals_as_dict())
        return None


def seen(tag):
    return [x for x in logs('spy') if x[1] == tag][0]


def source(*entities, location='some location'):
    return LaunchDescriptionSource(LaunchDescription(list(entities)), location=location)


def included(*entities, **kw):
    return IncludeLaunchDescription(source(*entities), **kw)


def visit(context, entity):
    return visit_all_entities_and_collect_futures(entity, context)


def missing(r):
    return r[0] == 'raise' and isinstance(r[1], RuntimeError)


def d_arguments():
    """Arguments are set, in order, before any entity of the description is visited."""
    c = make_context()
    v = unknown('value', str)
    c.launch_configurations['outer'] = v
    c.launch_configurations['n'] = 'text'
    visit(c, included(Spy('in'), launch_arguments=[
        ('a', 'text'), ('b', LaunchConfiguration('outer')), ('c', LaunchConfiguration('a')),
        ([LaunchConfiguration('n'), '_x'], 'composed')]))
    cfg = seen('in')[2]
    check(cfg['a'] == 'text', 'text argument')
    check(cfg['b'] == v, 'argument taken from the configurations of the includer')
    check(cfg['c'] == 'text', 'a later argument may use an earlier one')
    check(cfg['text_x'] == 'composed', 'the name may be a substitution')
    check(len(cfg) == 6, 'nothing else is set')


def d_arguments_iterator():
    """Arguments given as an iterator are passed on every visit."""
    c = make_context()
    i = included(Spy('in'), launch_arguments=iter([('a', '1')]))
    visit(c, i)
    c.launch_configurations.clear()
    visit(c, i)
    check([x[2] for x in logs('spy')] == [{'a': '1'}, {'a': '1'}], 'passed on both visits')


def d_entities():
    """The entities of the description are visited once each, in order, after the arguments."""
    c = make_context()
    f = pin(new_future())
    r = visit(c, included(Probe('1'), Probe('2', future=f), Probe('3')))
    check([x[1] for x in logs('execute')] == ['1', '2', '3'], 'in order, once each')
    check(len(r) == 1 and r[0][1] is f, 'futures are collected')


def d_location():
    """The included description sees its own file as the current launch file."""
    c = make_context()
    c.extend_locals({'current_launch_file_path': 'outer', 'current_launch_file_directory': 'outer'})
    exists = unknown('exists', bool)
    stub('os.path.exists', lambda p: exists)
    stub('os.path.abspath', lambda p: '/abs/' + p)
    stub('os.path.realpath', lambda p: '/real/' + p)
    stub('os.path.dirname', lambda p: 'dir of ' + p)
    visit(c, IncludeLaunchDescription(source(Spy('in'), location='x.launch.py')))
    loc = seen('in')[3]
    check(loc['current_launch_file_path'] == '/abs/x.launch.py', 'path of the included file')
    if exists:
        check(loc['current_launch_file_directory'] == 'dir of /abs/x.launch.py',
              'directory of the included file')
    else:
        check(loc['current_launch_file_directory'] == 'x.launch.py',
              'a location which is no file is passed as it is')


def d_required():
    """A required argument of the description not passed is an error before anything is visited."""
    c = make_context()
    given = pick(True, False)
    default = pick(None, 'value')
    args = [('req', 'given')] if given else []
    r = outcome(visit, c, included(
        Probe('first'), DeclareLaunchArgument('req', default_value=default),
        launch_arguments=args + [('other', 'x')]))
    if given or default is not None:
        check(r[0] == 'ok' and len(logs('execute')) == 1, 'satisfied: visited')
        check(c.launch_configurations['req'] == ('given' if given else 'value'), 'with its value')
    else:
        check(missing(r), 'not satisfied: an error')
        check(len(logs('execute')) == 0, 'nothing of the description is visited')


def d_required_conditional():
    """A required argument declared below a condition is no error, at any depth."""
    c = make_context()
    answer = unknown('answer', bool)
    arg = DeclareLaunchArgument('req')
    how = pick('itself', 'group', 'nested group', 'include', 'group in include')
    if how == 'itself':
        e = DeclareLaunchArgument('req', condition=Flag(answer))
    elif how == 'group':
        e = GroupAction([arg], condition=Flag(answer))
    elif how == 'nested group':
        e = GroupAction([GroupAction([arg])], condition=Flag(answer))
    elif how == 'include':
        e = included(arg, condition=Flag(answer))
    else:
        e = GroupAction([included(GroupAction([arg]))], condition=Flag(answer))
    r = outcome(visit, c, included(e))
    if answer:
        check(missing(r), 'visited without a value: the declaration is an error')
    else:
        check(r[0] == 'ok', 'never visited: no error')


def d_required_other_place():
    """Whether a declaration is below a condition is asked again wherever it is used."""
    c = make_context()
    arg = DeclareLaunchArgument('req')
    conditional = included(GroupAction([arg], condition=Flag(False)), Spy('first'))
    plain = included(Spy('second'), arg)
    if pick(True, False):
        r = outcome(visit, c, conditional)
        check(r[0] == 'ok', 'below a condition it is not required')
        r = outcome(visit, c, plain)
        check(missing(r), 'elsewhere it is')
    else:
        r = outcome(visit, c, plain)
        check(missing(r), 'elsewhere it is')
        r = outcome(visit, c, conditional)
        check(r[0] == 'ok', 'below a condition it is not required')
    check([x[1] for x in logs('spy')] == ['first'], 'nothing of what is refused is visited')


def d_description_own():
    """A description has its own list of entities."""
    given = [Probe('a'), Probe('b')]
    d = LaunchDescription(pick(given, tuple(given)))
    d.add_action(Probe('c'))
    check(len(given) == 2, 'what it was made from stays as it is')
    check([e.tag for e in d.entities] == ['a', 'b', 'c'], 'in order')
    given.clear()
    check(len(d.entities) == 3, 'whatever becomes of that')


def d_required_on_exit():
    """What is done when a process ends belongs to the description."""
    from launch.actions import ExecuteLocal
    from launch.descriptions import Executable
    from drv.proc import process_model
    c, loop = process_model()
    which = pick('a', 'b', None)
    args = [(n, 'v') for n in ('a', 'b') if n != which]
    a = ExecuteLocal(process_description=Executable(cmd=['prog']), on_exit=[
        DeclareLaunchArgument('a'), DeclareLaunchArgument('b')])
    r = outcome(visit, c, included(a, launch_arguments=args))
    check(missing(r) if which is not None else r[0] == 'ok', 'its arguments are required')


def d_required_nested_passed():
    """A required argument of a nested description passed by the include below is no error."""
    c = make_context()
    arg = DeclareLaunchArgument('req')
    by = pick('inner', 'substitution', 'nobody')
    inner = {'inner': [('req', 'v')], 'substitution': [(LaunchConfiguration('name'), 'v')]}.get(by, [])
    mid = included(arg, Spy('in'), launch_arguments=inner)
    r = outcome(visit, c, included(
        SetLaunchConfiguration('name', 'req'), mid))
    if by == 'nobody':
        check(missing(r), 'passed by nobody: an error')
        check(len(logs('spy')) == 0, 'before the description is visited')
    else:
        check(r[0] == 'ok', 'passed on the way: no error')
        check(seen('in')[2]['req'] == 'v', 'with the value passed')


def d_required_sibling():
    """What is passed to one nested include does not satisfy another one, in either order."""
    c = make_context()
    lacking = included(DeclareLaunchArgument('req'))
    passing = included(Probe('other'), launch_arguments=[('req', 'v')])
    if pick(True, False):
        es = [lacking, passing]
    else:
        es = [GroupAction([passing]), lacking]
    r = outcome(visit, c, included(Probe('first'), *es))
    check(missing(r), 'the missing argument is an error')
    check(len(logs('execute')) == 0, 'before anything is visited')


def d_argument_list():
    """The declared arguments of a description are found at any depth, first declaration only."""
    a, b, d, e = (DeclareLaunchArgument('a', default_value='1'), DeclareLaunchArgument('b'),
                  DeclareLaunchArgument('a', default_value='2'), DeclareLaunchArgument('e'))
    inc = included(d, e)
    ld = LaunchDescription([a, GroupAction([b], condition=Flag(False)), inc])
    args = ld.get_launch_arguments()
    check(len(args) == 3 and args[0] is a and args[1] is b and args[2] is e,
          'each name once, in order of declaration')
    nested = [x[1] for x in ld.get_launch_arguments_with_include_launch_description_actions()]
    check(not nested[0] and not nested[1], 'no include is involved at the top level')
    check(len(nested[2]) == 1 and nested[2][0] is inc, 'the include is named for nested ones')
    again = ld.get_launch_arguments()
    check(len(again) == 3, 'asking again gives the same')


def d_argument_list_reset():
    """Arguments declared after a reset of the configurations cannot be passed from the outside."""
    ld = LaunchDescription([
        DeclareLaunchArgument('a'),
        GroupAction([ResetLaunchConfigurations(), DeclareLaunchArgument('hidden')]),
        DeclareLaunchArgument('b'),
        ResetLaunchConfigurations(), DeclareLaunchArgument('late')])
    check([x.name for x in ld.get_launch_arguments()] == ['a', 'b'], 'only the ones before a reset')


def d_involved():
    """For a nested argument exactly the includes on its way are named, outermost first."""
    i1 = included(DeclareLaunchArgument('x'))
    i2 = included(DeclareLaunchArgument('y'))
    mid = included(i1, i2)
    ld = LaunchDescription([mid])
    r = {x[0].name: x[1] for x in ld.get_launch_arguments_with_include_launch_description_actions()}
    check(len(r['x']) == 2 and r['x'][0] is mid and r['x'][1] is i1, 'first branch')
    check(len(r['y']) == 2 and r['y'][0] is mid and r['y'][1] is i2, 'second branch')


def d_include_unloadable():
    """A description that cannot be loaded ahead of time is no error until it is visited."""
    src = LaunchDescriptionSource(location=LaunchConfiguration('missing'))
    i = IncludeLaunchDescription(src)
    check(len(i.describe_sub_entities()) == 0, 'nothing can be described')
    c = make_context()
    r = outcome(visit, c, included(Probe('1'), i))
    check([x[1] for x in logs('execute')] == ['1'], 'the rest of the outer one is visited')
    check(r[0] == 'raise', 'visiting it is an error')


def d_deprecated():
    """A deprecated description warns when visited and is visited all the same."""
    c = make_context()
    why = pick(None, '', 'old')
    ld = LaunchDescription([Probe('1')], deprecated_reason=why)
    visit(c, ld)
    check([x[1] for x in logs('execute')] == ['1'], 'visited')
    check(ld.deprecated is (why is not None), 'deprecated iff a reason is given')
    check(len(events('.warning')) == (0 if why is None else 1), 'warned iff deprecated')


def d_source_given():
    """An include keeps the source it was given; a location in its place is a launch file of any kind there."""
    from launch.launch_description_sources import AnyLaunchDescriptionSource
    c = make_context()
    c.launch_configurations['x'] = 'place'
    s = source(Probe('in'))
    check(IncludeLaunchDescription(s).launch_description_source is s, 'that source')
    asked = []

    def loaded(path):
        asked.append(path)
        return LaunchDescription([Probe('of file')])
    stub('launch.launch_description_sources.any_launch_file_utilities.get_launch_description_from_any_launch_file', loaded)
    where = pick('place', LaunchConfiguration('x'), ['pl', 'ace'], [LaunchConfiguration('x')])
    i = IncludeLaunchDescription(where)
    check(isinstance(i.launch_description_source, AnyLaunchDescriptionSource), 'of any kind')
    check(asked == [], 'not loaded yet')
    visit(c, i)
    check(asked == ['place'], 'the file there, once')
    check([x[1] for x in logs('execute')] == ['of file'], 'what is in it')


def d_required_each():
    """Every required argument must be passed on its own way; another one's does not count for it."""
    c = make_context()
    passing = included(DeclareLaunchArgument('p'), Probe('other'), launch_arguments=[('p', 'v'), ('q', 'v')])
    lacking = included(DeclareLaunchArgument('q'))
    r = outcome(visit, c, included(Probe('first'), passing, lacking))
    check(missing(r), 'the missing argument is an error')
    check(len(logs('execute')) == 0, 'before anything is visited')


def d_required_exact():
    """Only an argument of exactly that name satisfies a required one."""
    c = make_context()
    name = pick('required', 'req', 're', 'eq', 'REQ', 'req ', 'o req', 'a, req')
    r = outcome(visit, c, included(Probe('first'), DeclareLaunchArgument('req'),
                                   launch_arguments=[('x', '1'), (name, 'v')]))
    if name == 'req':
        check(r[0] == 'ok' and c.launch_configurations['req'] == 'v', 'passed')
    else:
        check(missing(r), 'an error')
        check(len(logs('execute')) == 0, 'before anything is visited')


def d_required_by_outside():
    """A value which happens to be set outside does not count as passed, and is no default."""
    c = make_context()
    c.launch_configurations['req'] = 'outside'
    r = outcome(visit, c, included(Probe('first'), DeclareLaunchArgument('req')))
    check(missing(r), 'it has to be passed')


def d_any_default():
    """An argument with a default is not required, whatever the default is."""
    c = make_context()
    default = pick('', [], 'x', [''], LaunchConfiguration('y'), [LaunchConfiguration('y'), ''])
    c.launch_configurations['y'] = 'Y'
    r = outcome(visit, c, included(Probe('first'), DeclareLaunchArgument('opt', default_value=default)))
    check(r[0] == 'ok' and len(logs('execute')) == 1, 'visited')
    check(c.launch_configurations['opt'] in ['', 'x', 'Y'], 'with its default')


def d_persist():
    """The arguments of an include are visible to what comes after it, unless a group limits them."""
    c = make_context()
    c.launch_configurations['a'] = 'before'
    i = included(Spy('in'), launch_arguments=[('a', 'passed')])
    grouped = pick(True, False)
    visit(c, LaunchDescription([GroupAction([i]) if grouped else i, Spy('after')]))
    check(seen('in')[2]['a'] == 'passed', 'inside')
    check(seen('after')[2]['a'] == ('before' if grouped else 'passed'), 'afterwards')


def d_location_back():
    """Each of several included files sees its own location, and a file that includes keeps being told where."""
    c = make_context()
    stub('os.path.exists', lambda p: True)
    stub('os.path.abspath', lambda p: '/abs/' + p)
    stub('os.path.dirname', lambda p: 'dir of ' + p)

    def file(name, *es):
        return IncludeLaunchDescription(source(*es, location=name))
    visit(c, file('outer', Spy('1'), file('one', Spy('2')), file('two', Spy('3'))))
    for tag, name in [('1', 'outer'), ('2', 'one'), ('3', 'two')]:
        check(seen(tag)[3]['current_launch_file_path'] == '/abs/' + name, 'the path of the file itself')
        check(seen(tag)[3]['current_launch_file_directory'] == 'dir of /abs/' + name, 'and its directory')


def d_include_in_file():
    """An include of a launch file passes every argument written, in order, to the file written."""
    from drv.fe import entity, frontend
    c = make_context()
    c.launch_configurations['x'] = 'X'
    asked = []

    def loaded(path):
        asked.append(path)
        return LaunchDescription([Spy('in')])
    stub('launch.launch_description_sources.any_launch_file_utilities.get_launch_description_from_any_launch_file', loaded)
    fe = pick('xml', 'yaml')
    n = pick(0, 1, 3)
    args = [{'name': 'a', 'value': '$(var x)'}, {'name': 'b$(var x)', 'value': '$(var a)!'},
            {'name': 'a', 'value': 'last'}][:n]
    attrs = {'file': 'some/$(var x).py'}
    if n:
        attrs['arg' if fe == 'yaml' else pick('arg', 'let')] = args
    attrs = {k: v for k, v in attrs.items() if k != 'let'} | ({'arg': args} if n else {})
    i = frontend().parse_action(entity(fe, ('include', attrs)))
    check(isinstance(i, IncludeLaunchDescription), 'an include')
    visit(c, i)
    check(asked == ['some/X.py'], 'that file')
    check(seen('in')[2] == {'x': 'X', **({0: {}, 1: {'a': 'X'}, 3: {'a': 'last', 'bX': 'X!'}}[n])}, 'those arguments')
