"""A declared argument has a valid value after its declaration, or the declaration fails."""
from launch.actions import DeclareLaunchArgument
from launch.substitutions import LaunchConfiguration
from launch.substitutions import TextSubstitution

from drv.fe import *


def failed(r):
    return r[0] == 'raise' and isinstance(r[1], RuntimeError)


def d_value():
    """Set beforehand: kept. Otherwise the default. Otherwise an error and nothing is set."""
    c = make_context()
    v, dv = unknown('value', str), unknown('default', str)
    given, default = pick(True, False), pick(True, False)
    if given:
        c.launch_configurations['arg'] = v
    kw = {'default_value': dv} if default else {}
    r = outcome(DeclareLaunchArgument('arg', **kw).visit, c)
    if given:
        check(r[0] == 'ok' and c.launch_configurations['arg'] is v, 'a given value is kept')
    elif default:
        check(r[0] == 'ok' and c.launch_configurations['arg'] == dv, 'the default is set')
    else:
        check(failed(r), 'no value and no default: an error')
        check('arg' not in c.launch_configurations, 'nothing is set')


def d_default_lazy():
    """The default is evaluated at the declaration, and only if it is needed."""
    c = make_context()
    given = pick(True, False)
    if given:
        c.launch_configurations['arg'] = 'v'
    a = DeclareLaunchArgument('arg', default_value=[LaunchConfiguration('x'), '_suffix'])
    c.launch_configurations['x'] = 'late'
    if given:
        del c.launch_configurations['x']
    a.visit(c)
    check(c.launch_configurations['arg'] == ('v' if given else 'late_suffix'), 'the value')


def d_empty_default():
    """An empty default is a value."""
    c = make_context()
    DeclareLaunchArgument('arg', default_value='').visit(c)
    check(c.launch_configurations['arg'] == '', 'the empty value is set')


def d_empty_given():
    """An empty value given from outside is a value."""
    c = make_context()
    c.launch_configurations['arg'] = ''
    DeclareLaunchArgument('arg', default_value='x').visit(c)
    check(c.launch_configurations['arg'] == '', 'the empty value is kept')


def d_choices():
    """With choices, the value is one of them afterwards, or the declaration fails."""
    c = make_context()
    v = unknown('value', str)
    c.launch_configurations['arg'] = v
    r = outcome(DeclareLaunchArgument('arg', choices=['a', 'b']).visit, c)
    if v == 'a' or v == 'b':
        cover('valid')
        check(r[0] == 'ok' and c.launch_configurations['arg'] is v, 'a choice is accepted')
    else:
        cover('invalid')
        check(failed(r), 'anything else is refused')


def d_choices_default():
    """A default is subject to the choices as well, also if it is only known at run time."""
    c = make_context()
    v = unknown('value', str)
    c.launch_configurations['other'] = v
    r = outcome(DeclareLaunchArgument(
        'arg', choices=['a', 'b'], default_value=LaunchConfiguration('other')).visit, c)
    if v == 'a' or v == 'b':
        check(r[0] == 'ok' and c.launch_configurations['arg'] == v, 'a choice is accepted')
    else:
        check(failed(r), 'anything else is refused')


def d_choices_partial():
    """Parts of a choice are not a choice."""
    c = make_context()
    c.launch_configurations['arg'] = pick('al', 'phabet', '', 'alphab', 'alpha,bet', 'ALPHA',
                                             ' alpha', 'alpha ', 'alpha\n', "'alpha'")
    r = outcome(DeclareLaunchArgument('arg', choices=['alpha', 'bet']).visit, c)
    check(failed(r), 'refused')


def d_bad_declaration():
    """Empty choices, or a text default that is no choice, are refused at construction."""
    v = unknown('default', str)
    r = outcome(DeclareLaunchArgument, 'arg', choices=[], **pick(
        {}, {'default_value': v}, {'default_value': TextSubstitution(text='a')}, {'default_value': []},
        {'description': 'text'}))
    check(failed(r), 'empty choices')
    r = outcome(DeclareLaunchArgument, 'arg', choices=['a', 'b'], default_value=v)
    if v == 'a' or v == 'b':
        check(r[0] == 'ok', 'a default among the choices')
    else:
        check(failed(r), 'a default that is no choice')


def d_condition():
    """A declaration whose condition is false neither sets nor fails."""
    c = make_context()
    r = outcome(DeclareLaunchArgument('arg', condition=Flag(False)).visit, c)
    check(r[0] == 'ok' and 'arg' not in c.launch_configurations, 'nothing happens')


def d_description():
    """The choices are part of the description whatever the user wrote."""
    d = pick(None, 'text', 'text.')
    a = DeclareLaunchArgument('arg', description=d, choices=['one', 'two'])
    check('one' in a.description and 'two' in a.description, 'choices are listed')
    check(d is None or a.description.startswith('text.'), 'after the text of the user')
    check(DeclareLaunchArgument('arg', description='text').description == 'text', 'no choices')
    check(len(DeclareLaunchArgument('arg').description) > 0, 'never empty by default')


def d_twice():
    """Declaring an argument twice keeps the first value."""
    c = make_context()
    DeclareLaunchArgument('arg', default_value='1').visit(c)
    DeclareLaunchArgument('arg', default_value='2').visit(c)
    check(c.launch_configurations['arg'] == '1', 'the first default stays')


def d_file():
    """An argument of a launch file is declared with the name, default, description and choices written."""
    c = make_context()
    c.launch_configurations['x'] = 'X'
    kind_ = pick('xml', 'yaml')
    default = pick(None, 'b', '$(var x)b')
    text = pick(None, 'what $it is')
    listed = pick(True, False)
    attrs = {'name': 'n'}
    if default is not None:
        attrs['default'] = default
    if text is not None:
        attrs['description'] = text
    if listed:
        attrs['choice'] = [{'value': 'b'}, {'value': 'Xb'}, {'value': 'c'}]
    a = frontend().parse_action(entity(kind_, ('arg', attrs)))
    check(isinstance(a, DeclareLaunchArgument) and a.name == 'n', 'the name')
    check(text is None or a.description.startswith(text) and (listed or a.description == text), 'the description')
    check(a.choices == ['b', 'Xb', 'c'] if listed else a.choices is None, 'the choices')
    given = pick(None, 'c', 'd')
    if given is not None:
        c.launch_configurations['n'] = given
    r = outcome(a.visit, c)
    if given == 'd' and listed or given is None and default is None:
        check(r[0] == 'raise', 'refused')
    else:
        check(r[0] == 'ok', 'accepted')
        check(c.launch_configurations['n'] == (given or {'b': 'b', '$(var x)b': 'Xb'}[default]), 'the value')


def d_choices_conditional():
    """The choices hold as well for a declaration of which nobody could know whether it is visited."""
    from launch.actions import GroupAction
    from launch.utilities import visit_all_entities_and_collect_futures
    from launch import LaunchDescription
    c = make_context()
    a = DeclareLaunchArgument('arg', choices=['a', 'b'])
    ld = LaunchDescription([GroupAction([a], condition=Flag(True), scoped=False)])
    asked = pick(True, False)
    if asked:
        ld.get_launch_arguments(conditional_inclusion=pick(True, False))
    v = pick(None, 'a', 'c', '')
    if v is not None:
        c.launch_configurations['arg'] = v
    r = outcome(visit_all_entities_and_collect_futures, ld, c)
    if v == 'a':
        check(r[0] == 'ok' and c.launch_configurations['arg'] == 'a', 'accepted')
    else:
        check(failed(r), 'refused')


def d_empty_sequence_default():
    """A default without parts is an empty value."""
    c = make_context()
    DeclareLaunchArgument('arg', default_value=[]).visit(c)
    check(c.launch_configurations['arg'] == '', 'the empty value is set')


def d_again_later():
    """A declaration visited again goes by the configurations of that time."""
    c = make_context()
    a = DeclareLaunchArgument('arg', default_value=LaunchConfiguration('x'), choices=['1', '2'])
    c.launch_configurations['x'] = '1'
    a.visit(c)
    check(c.launch_configurations['arg'] == '1', 'the default of that time')
    del c.launch_configurations['arg']
    c.launch_configurations['x'] = pick('2', '3')
    r = outcome(a.visit, c)
    if c.launch_configurations['x'] == '2':
        check(r[0] == 'ok' and c.launch_configurations['arg'] == '2', 'the default of now')
    else:
        check(failed(r), 'checked again')


def d_declared_facts():
    """The name, the choices and the parts of the default of a declaration are those given to it."""
    d = pick(None, 'text', 'list', 'sub')
    s = LaunchConfiguration('x')
    a = DeclareLaunchArgument('the name', default_value={None: None, 'text': 'v', 'list': ['a', s], 'sub': s}[d])
    check(a.name == 'the name' and a.choices is None, 'name and choices')
    n = {None: None, 'text': 1, 'list': 2, 'sub': 1}[d]
    check(a.default_value is None if n is None else len(a.default_value) == n, 'the default')
    check(d != 'sub' or a.default_value[0] is s, 'its parts')


def d_file_description():
    """An escaped character in the description of a launch file is that character; nothing is substituted."""
    text = pick("it's", 'say "it"', 'a\\$b', 'a\\\\b', 'say \\"it\\"', '$(x', '$(var x)')
    a = frontend().parse_action(entity(pick('xml', 'yaml'), ('arg', {'name': 'n', 'description': text})))
    check(a.description == {'a\\$b': 'a$b', 'a\\\\b': 'a\\b', 'say \\"it\\"': 'say "it"'}.get(text, text), 'the text meant')
